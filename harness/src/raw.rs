//! Raw Linux system calls (x86-64), used wherever the harness itself talks to the kernel so that
//! nothing of it passes through the interposed libc functions.
use std::arch::asm;

#[inline(always)]
pub unsafe fn sc(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}
#[inline(always)]
pub fn sc3(n: i64, a: usize, b: usize, c: usize) -> isize {
    unsafe { sc(n, a, b, c, 0, 0, 0) }
}

pub fn close(fd: i32) -> isize {
    sc3(libc::SYS_close, fd as usize, 0, 0)
}
pub fn fcntl(fd: i32, cmd: i32, arg: usize) -> isize {
    sc3(libc::SYS_fcntl, fd as usize, cmd as usize, arg)
}
pub fn write(fd: i32, b: &[u8]) -> isize {
    sc3(libc::SYS_write, fd as usize, b.as_ptr() as usize, b.len())
}
pub fn read(fd: i32, b: &mut [u8]) -> isize {
    sc3(libc::SYS_read, fd as usize, b.as_mut_ptr() as usize, b.len())
}
pub fn poll(p: &mut [libc::pollfd], ms: i32) -> isize {
    sc3(libc::SYS_poll, p.as_mut_ptr() as usize, p.len(), ms as usize)
}
/// Readiness of one descriptor for the given events, without blocking.
pub fn poll1(fd: i32, ev: i16) -> i16 {
    let mut p = [libc::pollfd { fd, events: ev, revents: 0 }];
    let r = poll(&mut p, 0);
    if r > 0 { p[0].revents } else { 0 }
}
pub fn futex_wait(a: *const u32, v: u32) {
    unsafe { sc(libc::SYS_futex, a as usize, 128, v as usize, 0, 0, 0) };
}
pub fn futex_wake(a: *const u32) {
    unsafe { sc(libc::SYS_futex, a as usize, 129, 1, 0, 0, 0) };
}
pub fn fionread(fd: i32) -> i32 {
    let mut n: i32 = 0;
    let r = sc3(libc::SYS_ioctl, fd as usize, libc::FIONREAD as usize, &mut n as *mut i32 as usize);
    if r < 0 { -1 } else { n }
}
