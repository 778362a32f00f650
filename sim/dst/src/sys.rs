//! The handful of C functions the simulator itself needs.

#![allow(non_camel_case_types)]
pub type c_int = i32;
pub type c_long = i64;
pub enum c_void {}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct timespec { pub tv_sec: i64, pub tv_nsec: i64 }

extern "C" {
    pub fn mmap(a: *mut u8, l: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut u8;
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    pub fn _exit(c: c_int) -> !;
    pub fn dlsym(h: *mut c_void, name: *const u8) -> *mut c_void;
    pub fn sched_setaffinity(pid: c_int, n: usize, mask: *const u64) -> c_int;
    pub fn __errno_location() -> *mut c_int;
    pub fn prctl(op: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
    pub fn getppid() -> c_int;
    pub fn setrlimit(r: c_int, l: *const [u64; 2]) -> c_int;
    pub fn alarm(s: u32) -> u32;
}

pub const RTLD_NEXT: *mut c_void = -1isize as *mut c_void;
pub const SYS_SCHED_YIELD: c_long = 24;
pub const SYS_NANOSLEEP: c_long = 35;
pub const SYS_FUTEX: c_long = 202;
pub const SYS_CLOCK_GETTIME: c_long = 228;
pub const SYS_CLOCK_NANOSLEEP: c_long = 230;
pub const SYS_SCHED_GETAFFINITY: c_long = 204;
pub const SYS_GETRANDOM: c_long = 318;
pub const EAGAIN: c_int = 11;
pub const ETIMEDOUT: c_int = 110;

#[inline(always)]
pub unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

/// mmap of fresh zero pages; shared ones survive in children as one memory.
pub fn pages(at: usize, len: usize, shared: bool) -> *mut u8 {
    const RW: c_int = 3;
    const ANON: c_int = 0x20;
    const NORESERVE: c_int = 0x4000;
    const FIXED_NOREPLACE: c_int = 0x100000;
    let flags = ANON | NORESERVE | if shared { 1 } else { 2 } | if at != 0 { FIXED_NOREPLACE } else { 0 };
    let p = unsafe { mmap(at as *mut u8, len, RW, flags, -1, 0) };
    if p as isize == -1 || (at != 0 && p as usize != at) {
        eprintln!("cannot map {} bytes at {:#x}", len, at);
        std::process::exit(3);
    }
    p
}
