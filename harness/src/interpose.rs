//! Definitions of the libc functions the crate under test uses. Outside API calls they are plain
//! system calls; inside, they are scheduling points, blocking is virtual, and faults can be
//! injected.
use crate::raw::sc;
use crate::sched::{self, active, block, low, point, world, St};
use libc::{c_int, c_void, timespec};

unsafe fn ret(r: isize) -> isize {
    if r < 0 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
unsafe fn fail(e: i32) -> isize {
    *libc::__errno_location() = e;
    -1
}

/// Injected failure for the named call, if the current operation asks for one.
fn fault(name: &str) -> Option<i32> {
    if active() < 0 {
        return None;
    }
    let w = &mut world().th[active() as usize];
    if w.faults.is_empty() {
        return None;
    }
    w.fault_count += 1;
    let n = w.fault_count;
    if name == "epoll_ctl" {
        w.ctl_count += 1;
    }
    let k = 1000 + 1 + w.fault_names.iter().filter(|x| *x == name).count() as i64;
    w.fault_names.push(name.to_string());
    for (f, arg) in &w.faults {
        if f == name && *arg == 0 {
            return Some(match name {
                "eventfd" | "timerfd_create" | "pipe2" => libc::ENOSYS,
                "epoll_ctl" => libc::ENOSPC,
                "poll" | "epoll_wait" | "timerfd_settime" => libc::ENOMEM,
                _ => libc::EMFILE,
            });
        }
        if f == name && *arg == k {
            return Some(libc::ENOMEM);
        }
        if f == name && *arg < 0 {
            return Some(-*arg as i32);
        }
        if f == "nth" && *arg == n {
            return Some(libc::ENOMEM);
        }
        if f == "ctl" && name == "epoll_ctl" && *arg == w.ctl_count {
            return Some(libc::ENOSPC);
        }
    }
    None
}

macro_rules! faulty {
    ($n:expr) => {
        if let Some(e) = fault($n) {
            return fail(e) as _;
        }
    };
}

fn nonblocking(fd: c_int) -> bool {
    let f = crate::raw::fcntl(fd, libc::F_GETFL, 0);
    f < 0 || (f as i32 & libc::O_NONBLOCK) != 0
}

unsafe fn rw(n: i64, fd: c_int, buf: usize, len: usize, ev: i16, k: &str) -> isize {
    let me = active();
    if me < 0 {
        return ret(sc(n, fd as usize, buf, len, 0, 0, 0));
    }
    point(k, fd as usize);
    faulty!(k);
    if !nonblocking(fd) {
        while crate::raw::poll1(fd, ev) == 0 {
            block(me as usize, St::Fds(vec![(fd, ev)]), None);
            let t = &mut world().th[me as usize];
            if t.sig {
                t.sig = false;
                return fail(libc::EINTR);
            }
        }
    }
    let r = sc(n, fd as usize, buf, len, 0, 0, 0);
    low(k, fd as usize, r as u64 & 0xffff);
    ret(r)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    rw(libc::SYS_read, fd, buf as usize, n, libc::POLLIN, "read")
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    rw(libc::SYS_write, fd, buf as usize, n, libc::POLLOUT, "write")
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    rw(libc::SYS_readv, fd, iov as usize, n as usize, libc::POLLIN, "read")
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    rw(libc::SYS_writev, fd, iov as usize, n as usize, libc::POLLOUT, "write")
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if active() >= 0 {
        point("close", fd as usize);
    }
    if sched::has_world() {
        world().timers.remove(&fd);
    }
    let r = sc(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0);
    low("close", fd as usize, 0);
    ret(r) as c_int
}

fn ms_deadline(ms: c_int) -> Option<u128> {
    if ms < 0 { None } else { Some(world().now + ms as u128 * 1_000_000) }
}
unsafe fn ts_deadline(ts: *const timespec) -> Option<u128> {
    if ts.is_null() {
        None
    } else {
        Some(world().now + (*ts).tv_sec as u128 * sched::SEC + (*ts).tv_nsec as u128)
    }
}

/// Logs that a wait blocks while another one on the same poller has not returned.
fn saw_blocked(me: usize) {
    let w = world();
    let mine = w.th[me].call.clone();
    let is_wait = mine.as_ref().map_or(false, |(o, _)| o == "wait");
    let another = w.th.iter().enumerate().any(|(i, t)| i != me && t.call == mine);
    if is_wait && another && !w.th[me].blk {
        w.th[me].blk = true;
        sched::log(&format!("{{\"e\":\"blk\",\"th\":{},\"t\":{}}}", me + 1, sched::tnow()));
    }
}

/// The common part of all calls that wait for descriptors.
unsafe fn wait_call(
    me: usize,
    fds: &dyn Fn() -> Vec<(i32, i16)>,
    deadline: Option<u128>,
    zero: bool,
    k: &str,
    try_: &mut dyn FnMut() -> isize,
) -> isize {
    point(k, 0);
    faulty!(k);
    loop {
        let r = try_();
        let w = world();
        if r != 0 {
            low(k, 0, r as u64 & 0xffff);
            w.th[me].waited = true;
            return ret(r);
        }
        if zero || deadline.map_or(false, |d| d <= w.now) {
            low(k, 0, 0);
            w.th[me].waited = true;
            w.th[me].woke = !zero;
            return 0;
        }
        if w.th[me].sig {
            w.th[me].sig = false;
            low(k, 0, 0xfffc);
            w.th[me].woke = true;
            return fail(libc::EINTR);
        }
        low("blk", 0, 0);
        saw_blocked(me);
        block(me, St::Fds(fds()), deadline);
    }
}

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, ev: *mut libc::epoll_event, n: c_int, ms: c_int) -> c_int {
    let me = active();
    if me < 0 {
        return ret(sc(libc::SYS_epoll_wait, ep as usize, ev as usize, n as usize, ms as usize, 0, 0)) as c_int;
    }
    wait_call(me as usize, &|| vec![(ep, libc::POLLIN)], ms_deadline(ms), ms == 0, "epoll_wait", &mut || {
        sc(libc::SYS_epoll_wait, ep as usize, ev as usize, n as usize, 0, 0, 0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_pwait(ep: c_int, ev: *mut libc::epoll_event, n: c_int, ms: c_int, _s: *const c_void) -> c_int {
    epoll_wait(ep, ev, n, ms)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_pwait2(ep: c_int, ev: *mut libc::epoll_event, n: c_int, ts: *const timespec, _s: *const c_void) -> c_int {
    let me = active();
    if me < 0 {
        return ret(sc(libc::SYS_epoll_pwait2, ep as usize, ev as usize, n as usize, ts as usize, 0, 0)) as c_int;
    }
    let zero = !ts.is_null() && (*ts).tv_sec == 0 && (*ts).tv_nsec == 0;
    wait_call(me as usize, &|| vec![(ep, libc::POLLIN)], ts_deadline(ts), zero, "epoll_wait", &mut || {
        sc(libc::SYS_epoll_wait, ep as usize, ev as usize, n as usize, 0, 0, 0)
    }) as c_int
}

unsafe fn pollset(p: *mut libc::pollfd, n: u64) -> Vec<(i32, i16)> {
    (0..n as usize).map(|i| ((*p.add(i)).fd, (*p.add(i)).events)).filter(|x| x.0 >= 0).collect()
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut libc::pollfd, n: u64, ms: c_int) -> c_int {
    let me = active();
    if me < 0 {
        return ret(sc(libc::SYS_poll, p as usize, n as usize, ms as usize, 0, 0, 0)) as c_int;
    }
    wait_call(me as usize, &|| pollset(p, n), ms_deadline(ms), ms == 0, "poll", &mut || {
        sc(libc::SYS_poll, p as usize, n as usize, 0, 0, 0, 0)
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ppoll(p: *mut libc::pollfd, n: u64, ts: *const timespec, _s: *const c_void) -> c_int {
    let me = active();
    if me < 0 {
        return ret(sc(libc::SYS_ppoll, p as usize, n as usize, ts as usize, 0, 8, 0)) as c_int;
    }
    let zero = !ts.is_null() && (*ts).tv_sec == 0 && (*ts).tv_nsec == 0;
    wait_call(me as usize, &|| pollset(p, n), ts_deadline(ts), zero, "poll", &mut || {
        sc(libc::SYS_poll, p as usize, n as usize, 0, 0, 0, 0)
    }) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
    point("epoll_ctl", fd as usize);
    faulty!("epoll_ctl");
    let r = sc(libc::SYS_epoll_ctl, ep as usize, op as usize, fd as usize, ev as usize, 0, 0);
    low("epoll_ctl", fd as usize, ((op as u64) << 16) | (r as u64 & 0xffff));
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(f: c_int) -> c_int {
    point("epoll_create", 0);
    faulty!("epoll_create");
    ret(sc(libc::SYS_epoll_create1, f as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_create(_n: c_int) -> c_int {
    epoll_create1(0)
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(v: u32, f: c_int) -> c_int {
    point("eventfd", 0);
    faulty!("eventfd");
    ret(sc(libc::SYS_eventfd2, v as usize, f as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(p: *mut c_int, f: c_int) -> c_int {
    point("pipe2", 0);
    faulty!("pipe2");
    ret(sc(libc::SYS_pipe2, p as usize, f as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn pipe(p: *mut c_int) -> c_int {
    point("pipe", 0);
    faulty!("pipe");
    ret(sc(libc::SYS_pipe2, p as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    point("dup", 0);
    faulty!("dup");
    ret(sc(libc::SYS_dup, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    point("fcntl", fd as usize);
    faulty!("fcntl");
    ret(sc(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, cmd: u64, arg: usize) -> c_int {
    point("ioctl", fd as usize);
    faulty!("ioctl");
    ret(sc(libc::SYS_ioctl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn timerfd_create(c: c_int, f: c_int) -> c_int {
    point("timerfd_create", 0);
    faulty!("timerfd_create");
    ret(sc(libc::SYS_timerfd_create, c as usize, f as usize, 0, 0, 0, 0)) as c_int
}
fn ns(t: &timespec) -> u128 {
    t.tv_sec as u128 * sched::SEC + t.tv_nsec as u128
}
#[no_mangle]
pub unsafe extern "C" fn timerfd_settime(fd: c_int, fl: c_int, new: *const libc::itimerspec, old: *mut libc::itimerspec) -> c_int {
    point("timerfd_settime", fd as usize);
    // Stopping the timer after a wait cannot fail.
    let stop = !new.is_null() && (*new).it_value.tv_sec == 0 && (*new).it_value.tv_nsec == 0;
    if !(stop && active() >= 0 && world().th[active() as usize].waited) {
        faulty!("timerfd_settime");
    }
    // Let the kernel validate the value, then disarm: firing is up to virtual time.
    let r = sc(libc::SYS_timerfd_settime, fd as usize, fl as usize, new as usize, 0, 0, 0);
    if r < 0 || !sched::has_world() {
        return ret(r) as c_int;
    }
    let zero: libc::itimerspec = std::mem::zeroed();
    sc(libc::SYS_timerfd_settime, fd as usize, 0, &zero as *const _ as usize, 0, 0, 0);
    let w = world();
    if !old.is_null() {
        *old = zero;
        if let Some((d, iv)) = w.timers.get(&fd) {
            let left = if *d == 0 { 0 } else { d.saturating_sub(w.now).max(1) };
            (*old).it_value = timespec { tv_sec: (left / sched::SEC) as i64, tv_nsec: (left % sched::SEC) as i64 };
            (*old).it_interval = timespec { tv_sec: (*iv / sched::SEC) as i64, tv_nsec: (*iv % sched::SEC) as i64 };
        }
    }
    let v = ns(&(*new).it_value);
    let iv = ns(&(*new).it_interval);
    let d = if v == 0 {
        0
    } else if fl & libc::TFD_TIMER_ABSTIME != 0 {
        v
    } else {
        w.now + v
    };
    w.timers.insert(fd, (d, iv));
    if d != 0 && d <= w.now {
        sched::fire_timers(w);
    }
    low("timerfd_settime", fd as usize, (v != 0) as u64);
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: c_int, ts: *mut timespec) -> c_int {
    if active() < 0 || !(c == libc::CLOCK_MONOTONIC || c == libc::CLOCK_BOOTTIME || c == libc::CLOCK_MONOTONIC_RAW || c == libc::CLOCK_MONOTONIC_COARSE) {
        return ret(sc(libc::SYS_clock_gettime, c as usize, ts as usize, 0, 0, 0, 0)) as c_int;
    }
    let w = world();
    // something may happen between the end of a wait call and the look at the clock
    let me = active() as usize;
    if w.th[me].woke {
        w.th[me].woke = false;
        point("clock", 0);
    }
    let w = world();
    if w.tick > 0 {
        w.now += w.tick;
        w.ticked += w.tick;
        sched::fire_timers(w);
    }
    *ts = timespec { tv_sec: (w.now / sched::SEC) as i64, tv_nsec: (w.now % sched::SEC) as i64 };
    0
}

unsafe fn sleep_until(d: u128) -> c_int {
    let me = active() as usize;
    block(me, St::Sleep, Some(d));
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const timespec, b: *mut timespec) -> c_int {
    if active() < 0 {
        return ret(sc(libc::SYS_nanosleep, a as usize, b as usize, 0, 0, 0, 0)) as c_int;
    }
    sleep_until(world().now + ns(&*a))
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, fl: c_int, a: *const timespec, b: *mut timespec) -> c_int {
    if active() < 0 {
        return -sc(libc::SYS_clock_nanosleep, c as usize, fl as usize, a as usize, b as usize, 0, 0) as c_int;
    }
    let d = ns(&*a);
    sleep_until(if fl & libc::TIMER_ABSTIME != 0 { d } else { world().now + d })
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() < 0 {
        return sc(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int;
    }
    sched::yield_point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, _f: u32) -> isize {
    // The same in every execution of a program: schedules can be enumerated and replayed.
    let salt = if sched::has_world() { world().cfg.salt } else { 0 };
    for i in 0..n {
        *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11) ^ (salt >> (8 * (i % 8))) as u8;
    }
    n as isize
}

unsafe fn futex(addr: usize, op: c_int, val: u32, to: usize, a5: usize, a6: usize) -> isize {
    let me = active();
    let cmd = op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    if me < 0 || !(cmd == libc::FUTEX_WAIT || cmd == libc::FUTEX_WAIT_BITSET || cmd == libc::FUTEX_WAKE || cmd == libc::FUTEX_WAKE_BITSET) {
        return ret(sc(libc::SYS_futex, addr, op as usize, val as usize, to, a5, a6));
    }
    let me = me as usize;
    point("futex", addr);
    let w = world();
    if cmd == libc::FUTEX_WAIT || cmd == libc::FUTEX_WAIT_BITSET {
        if *(addr as *const u32) != val {
            return fail(libc::EAGAIN);
        }
        let dl = if to == 0 {
            None
        } else {
            let t = ns(&*(to as *const timespec));
            Some(if cmd == libc::FUTEX_WAIT { w.now + t } else { t })
        };
        low("fwait", addr, 0);
        block(me, St::Futex(addr), dl);
        if world().th[me].woken {
            world().th[me].woken = false;
            0
        } else {
            fail(libc::ETIMEDOUT)
        }
    } else {
        let mut n = 0;
        for t in w.th.iter_mut() {
            if n < val && t.st == St::Futex(addr) && !t.woken {
                t.woken = true;
                n += 1;
            }
        }
        low("fwake", addr, n as u64);
        n as isize
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    match n {
        libc::SYS_futex => futex(a, b as c_int, c as u32, d, e, f),
        libc::SYS_getrandom => getrandom(a as *mut u8, b, 0),
        libc::SYS_eventfd2 if active() >= 0 => eventfd(a as u32, b as c_int) as isize,
        libc::SYS_pipe2 if active() >= 0 => pipe2(a as *mut c_int, b as c_int) as isize,
        libc::SYS_epoll_pwait2 if active() >= 0 => epoll_pwait2(a as c_int, b as *mut _, c as c_int, d as *const _, std::ptr::null()) as isize,
        _ => ret(sc(n, a, b, c, d, e, f)),
    }
}
