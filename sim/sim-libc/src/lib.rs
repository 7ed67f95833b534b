//! `libc` with the process calls simulated.
#![allow(ambiguous_glob_reexports)]
pub use real::*;

fn fail(e: i32) -> c_int {
    unsafe { *real::__errno_location() = e };
    -1
}

pub unsafe fn kill(pid: pid_t, sig: c_int) -> c_int {
    simk::point("kill");
    let targets: Vec<u32> = if pid > 0 {
        simk::k().procs.contains_key(&(pid as u32)).then_some(pid as u32).into_iter().collect()
    } else {
        let g = if pid == 0 { simk::k().procs[&simk::cur_pid()].pgid } else { (-pid) as u32 };
        simk::k().procs.values().filter(|p| p.pgid == g).map(|p| p.pid).collect()
    };
    if targets.contains(&simk::HOST) && sig != 0 {
        simk::fail_fatal("host.signal", format!("the host signalled itself: kill({pid}, {sig})"));
    }
    let mut any = false;
    for t in targets {
        any |= if sig == SIGKILL { simk::kill_soon(t, sig) } else { simk::signal(t, sig) };
    }
    if any { 0 } else { fail(ESRCH) }
}
pub unsafe fn killpg(g: pid_t, sig: c_int) -> c_int {
    unsafe { kill(-g, sig) }
}
pub unsafe fn setpgid(pid: pid_t, g: pid_t) -> c_int {
    let pid = if pid == 0 { simk::cur_pid() } else { pid as u32 };
    if simk::fault("setpgid", 2) > 0 {
        return fail(EPERM);
    }
    let p = simk::k().procs.get_mut(&pid).unwrap();
    p.pgid = if g == 0 { pid } else { g as u32 };
    0
}
pub unsafe fn getpid() -> pid_t {
    simk::cur_pid() as pid_t
}
pub unsafe fn setrlimit(r: __rlimit_resource_t, l: *const rlimit) -> c_int {
    if simk::fault("setrlimit", 2) > 0 {
        return fail(EPERM);
    }
    if r == RLIMIT_AS {
        let pid = simk::cur_pid();
        simk::k().procs.get_mut(&pid).unwrap().rlimit_as = Some(unsafe { (*l).rlim_cur });
    }
    0
}
pub unsafe fn sched_getaffinity(_: pid_t, n: usize, set: *mut cpu_set_t) -> c_int {
    unsafe {
        std::ptr::write_bytes(set as *mut u8, 0, n);
        for i in 0..simk::k().cfg.parallelism {
            real::CPU_SET(i, &mut *set);
        }
    }
    0
}
pub unsafe fn sched_setaffinity(_: pid_t, _: usize, set: *const cpu_set_t) -> c_int {
    let v: Vec<usize> = (0..1024).filter(|i| unsafe { real::CPU_ISSET(*i, &*set) }).collect();
    let pid = simk::cur_pid();
    if v.is_empty() || v.iter().any(|c| *c >= simk::k().cfg.parallelism) {
        return fail(EINVAL);
    }
    simk::k().procs.get_mut(&pid).unwrap().affinity = Some(v);
    0
}
