//! The few system calls the simulator needs, declared directly (no libc crate).
#![allow(dead_code)]
pub const PROT_NONE: i32 = 0;
pub const PROT_READ: i32 = 1;
pub const PROT_WRITE: i32 = 2;
pub const MAP_SHARED: i32 = 1;
pub const MAP_PRIVATE: i32 = 2;
pub const MAP_FIXED: i32 = 0x10;
pub const MAP_ANON: i32 = 0x20;
pub const MAP_NORESERVE: i32 = 0x4000;
pub const MAP_FIXED_NOREPLACE: i32 = 0x100000;
pub const MADV_DONTNEED: i32 = 4;
pub const SIGILL: i32 = 4;
pub const SIGABRT: i32 = 6;
pub const SIGBUS: i32 = 7;
pub const SIGFPE: i32 = 8;
pub const SIGKILL: i32 = 9;
pub const SIGSEGV: i32 = 11;
pub const SIGVTALRM: i32 = 26;
pub const SA_SIGINFO: i32 = 4;
pub const SA_ONSTACK: i32 = 0x0800_0000;
pub const ITIMER_VIRTUAL: i32 = 1;

#[repr(C)]
pub struct SigAction {
    pub handler: usize,
    pub mask: [u64; 16],
    pub flags: i32,
    pub restorer: usize,
}
#[repr(C)]
pub struct StackT {
    pub sp: *mut u8,
    pub flags: i32,
    pub size: usize,
}
#[repr(C)]
pub struct Itimerval {
    pub interval: [i64; 2],
    pub value: [i64; 2],
}
extern "C" {
    pub fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn munmap(a: *mut u8, len: usize) -> i32;
    pub fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
    pub fn madvise(a: *mut u8, len: usize, adv: i32) -> i32;
    pub fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    pub fn sigaltstack(ss: *const StackT, old: *mut StackT) -> i32;
    pub fn setitimer(which: i32, new: *const Itimerval, old: *mut Itimerval) -> i32;
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn dup2(a: i32, b: i32) -> i32;
    pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    pub fn personality(p: u64) -> i32;
    pub fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}
