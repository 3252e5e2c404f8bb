//! Seams below the standard library: the system calls through which a Rust program meets
//! nondeterminism. `getrandom` (hash seeds), `clock_gettime` (clocks) and the futex calls of
//! `std::sync` are defined here, so the linker resolves the standard library's references to them
//! and, inside a simulation, the simulator answers. Outside a simulation they pass through.

use crate::alloc::host;
use crate::sched;
use std::arch::asm;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};

/// True in a process that runs a simulation (a forked child), from before its first node starts.
pub static SIM_ON: AtomicBool = AtomicBool::new(false);
pub static HASH_SEED: AtomicU64 = AtomicU64::new(0);
pub static HASH_CALLS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_SKEW: AtomicU64 = AtomicU64::new(0);
static CLOCK_JUMPS: AtomicU64 = AtomicU64::new(0);
static OUTSIDE_CALLS: AtomicU64 = AtomicU64::new(0);

#[inline]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    asm!("syscall", inlateout("rax") n => ret, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}

pub fn futex_wait(a: &AtomicU32, val: u32) {
    unsafe { raw6(libc::SYS_futex, a as *const _ as i64, libc::FUTEX_WAIT as i64 | libc::FUTEX_PRIVATE_FLAG as i64, val as i64, 0, 0, 0) };
}

pub fn futex_wake(a: &AtomicU32) {
    unsafe { raw6(libc::SYS_futex, a as *const _ as i64, libc::FUTEX_WAKE as i64 | libc::FUTEX_PRIVATE_FLAG as i64, i32::MAX as i64, 0, 0, 0) };
}

/// Real time in nanoseconds, for budgets outside simulations only.
pub fn real_now_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw6(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut ts as *mut _ as i64, 0, 0, 0, 0) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

fn fill_random(buf: *mut u8, len: usize) {
    host(|| fill_random_bytes(buf, len))
}

fn fill_random_bytes(buf: *mut u8, len: usize) {
    HASH_CALLS.fetch_add(1, Ordering::Relaxed);
    // Keyed by node and by the count of calls of that node, so that the hash seeds of one node do
    // not depend on the schedule of the others.
    let (node, call) = match sched::node_hash_call() {
        Some(x) => x,
        None => (u64::MAX, OUTSIDE_CALLS.fetch_add(1, Ordering::Relaxed)),
    };
    let mut rng = crate::rng::Rng::new(
        HASH_SEED.load(Ordering::Relaxed) ^ crate::rng::mix(node.wrapping_mul(0x1_0000_0001).wrapping_add(call)),
    );
    for i in 0..len {
        unsafe { *buf.add(i) = rng.u64() as u8 };
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: u32) -> isize {
    let _ = flags;
    fill_random(buf as *mut u8, len);
    len as isize
}

/// Time that passed unseen: in half of the runs, one reading of a clock in four by a node finds that the machine was
/// suspended for up to hours since the last one. Only who reads clocks can tell; the scheduler's time is not touched.
fn jump() -> u64 {
    let n = CLOCK_READS.load(Ordering::Relaxed);
    if CLOCK_SKEW.load(Ordering::Relaxed) != 0 && sched::in_node() {
        let r = crate::rng::mix(HASH_SEED.load(Ordering::Relaxed) ^ crate::rng::mix(n ^ 0x71));
        if r % 4 == 0 {
            CLOCK_JUMPS.fetch_add(1 << (20 + (r >> 8) % 24), Ordering::Relaxed);
        }
    }
    CLOCK_JUMPS.load(Ordering::Relaxed)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    host(|| read_clock(clk, ts))
}

unsafe fn read_clock(clk: i32, ts: *mut libc::timespec) -> i32 {
    if SIM_ON.load(Ordering::Relaxed) {
        CLOCK_READS.fetch_add(1, Ordering::Relaxed);
        let mut ns = sched::sim_clock_ns() + jump();
        if clk == libc::CLOCK_REALTIME {
            // the wall clock is skewed per run and may run behind or jump
            ns = ns.wrapping_add(1_600_000_000_000_000_000).wrapping_add(CLOCK_SKEW.load(Ordering::Relaxed));
        }
        (*ts).tv_sec = (ns / 1_000_000_000) as i64;
        (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    let r = raw6(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0);
    if r < 0 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        0
    }
}

/// `libc::syscall` as used by std for futexes. A futex wait of a simulated node becomes a blocking
/// point of the simulated scheduler.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    host(|| system_call(n, a, b, c, d, e, f))
}

unsafe fn system_call(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if SIM_ON.load(Ordering::Relaxed) {
        if n == libc::SYS_futex && sched::in_node() {
            let op = b as i32 & 0x7f;
            if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
                if (*(a as *const AtomicU32)).load(Ordering::SeqCst) != c as u32 {
                    *libc::__errno_location() = libc::EAGAIN;
                    return -1;
                }
                sched::futex_block(a as usize);
                return 0;
            }
            if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
                return sched::futex_unblock(a as usize, c as u32) as i64;
            }
        }
        if n == libc::SYS_getrandom {
            fill_random(a as *mut u8, b as usize);
            return b;
        }
    }
    let r = raw6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

/// 0: the machine's own number of processors.
static PROCESSORS: AtomicU64 = AtomicU64::new(0);

/// What the library could find around it besides time, addresses and random numbers: an environment, a machine.
/// (Called before any node exists.)
pub fn surroundings(seed: u64) {
    let mut rng = crate::rng::Rng::new(crate::rng::mix(seed ^ 0x5e11));
    PROCESSORS.store(*rng.pick(&[1, 1, 2, 4, 7, 64]), Ordering::SeqCst);
    let vars: &[(&str, &[&str])] = &[
        ("LANG", &["", "C", "en_US.UTF-8", "de_DE.UTF-8", "tr_TR.UTF-8", "ja_JP.eucJP"]),
        ("LC_ALL", &["", "C", "C.UTF-8", "tr_TR.UTF-8"]),
        ("LANGUAGE", &["", "de:en"]),
        ("TZ", &["", "UTC", "Asia/Kathmandu"]),
        ("HOME", &["/root", "/", "/nonexistent"]),
        ("USER", &["root", "build", "www-data"]),
        ("CI", &["", "true", "1"]),
        ("TERM", &["", "dumb", "xterm-256color"]),
        ("NO_COLOR", &["", "1"]),
        ("DEBUG", &["", "1", "*"]),
        ("RUST_LOG", &["", "trace", "elasticlunr=debug"]),
        ("SOURCE_DATE_EPOCH", &["", "0", "1700000000"]),
        ("RAYON_NUM_THREADS", &["", "1", "8"]),
    ];
    for (k, vs) in vars {
        let v = *rng.pick(vs);
        if v.is_empty() && rng.chance(0.7) {
            std::env::remove_var(k);
        } else {
            std::env::set_var(k, v);
        }
    }
}

/// How many processors the program sees (`available_parallelism`).
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, size: usize, set: *mut libc::cpu_set_t) -> i32 {
    let n = PROCESSORS.load(Ordering::Relaxed) as usize;
    if n == 0 {
        let r = raw6(libc::SYS_sched_getaffinity, pid as i64, size as i64, set as i64, 0, 0, 0);
        if r < 0 {
            *libc::__errno_location() = -r as i32;
            return -1;
        }
        std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, size.saturating_sub(r as usize));
        return 0;
    }
    std::ptr::write_bytes(set as *mut u8, 0, size);
    for i in 0..n.min(size * 8) {
        *(set as *mut u8).add(i / 8) |= 1 << (i % 8);
    }
    0
}

/// Switch address space randomisation off and run this program again, so that addresses are the
/// same in every run. Goes on without if the sandbox does not allow it.
pub fn fix_addresses() {
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        if cur < 0 || cur & libc::ADDR_NO_RANDOMIZE != 0 {
            return;
        }
        if libc::personality(cur as libc::c_ulong | libc::ADDR_NO_RANDOMIZE as libc::c_ulong) < 0 {
            return;
        }
        if libc::personality(0xffff_ffff) & libc::ADDR_NO_RANDOMIZE == 0 {
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    let _ = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
}
