//! `libc` with the calls that act on processes replaced: they act on the explorer's processes, never on real ones.
#![allow(clippy::missing_safety_doc)]
pub use real::*;
use mcstd::process::{BASE, forking};

fn errno(e: c_int) -> c_int {
    unsafe { *real::__errno_location() = e };
    -1
}

/// Signals a process (`pid`) or a group (`-pid`).
pub unsafe fn kill(pid: pid_t, sig: c_int) -> c_int {
    let group = pid < 0;
    let n = pid.unsigned_abs() as i64 - BASE as i64;
    if n <= 0 || n as usize >= mc::processes() || group && !mc::leads_group(n as usize) {
        return errno(ESRCH);
    }
    let p = n as usize;
    let there = match sig {
        SIGSTOP | SIGTSTP => mc::stop_process(p, true),
        SIGCONT => mc::stop_process(p, false),
        SIGKILL | SIGTERM | SIGINT | SIGABRT | SIGSEGV => mc::kill_process(p, sig),
        0 => true,
        _ => return errno(EINVAL),
    };
    // A process that has ended but was not waited for still counts.
    let _ = there;
    0
}
pub unsafe fn killpg(group: pid_t, sig: c_int) -> c_int {
    unsafe { kill(-group, sig) }
}
pub unsafe fn setpgid(_: pid_t, _: pid_t) -> c_int {
    match forking(|i| i.group = true) {
        Some(()) => 0,
        None => errno(EPERM),
    }
}
pub unsafe fn setrlimit(resource: __rlimit_resource_t, limit: *const rlimit) -> c_int {
    let l = unsafe { *limit };
    match forking(|i| {
        if resource == RLIMIT_AS {
            i.memory_limit = Some(l.rlim_cur.min(l.rlim_max));
        }
    }) {
        Some(()) => 0,
        None => errno(EPERM),
    }
}
pub unsafe fn sched_getaffinity(_: pid_t, size: usize, set: *mut cpu_set_t) -> c_int {
    assert!(size <= size_of::<cpu_set_t>());
    unsafe {
        *set = std::mem::zeroed();
        // Processors 1, 3, 4 and 6 may be used.
        for c in [1, 3, 4, 6] {
            CPU_SET(c, &mut *set);
        }
    }
    0
}
pub unsafe fn sched_setaffinity(_: pid_t, _: usize, set: *const cpu_set_t) -> c_int {
    let n = (0..1024).filter(|&c| unsafe { CPU_ISSET(c, &*set) }).map(|c| 1usize << c.min(60)).sum();
    match forking(|i| i.cpus = Some(n)) {
        Some(()) => 0,
        None => errno(EPERM),
    }
}
