//! Raw system calls (the libc symbols of the same name are interposed).
use core::arch::asm;

#[inline(always)]
pub unsafe fn sys6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub const SYS_READ: i64 = 0;
pub const SYS_WRITE: i64 = 1;
pub const SYS_CLOSE: i64 = 3;
pub const SYS_FSTAT: i64 = 5;
pub const SYS_LSEEK: i64 = 8;
pub const SYS_MMAP: i64 = 9;
pub const SYS_PREAD64: i64 = 17;
pub const SYS_READV: i64 = 19;
pub const SYS_SCHED_YIELD: i64 = 24;
pub const SYS_NANOSLEEP: i64 = 35;
pub const SYS_FCNTL: i64 = 72;
pub const SYS_FUTEX: i64 = 202;
pub const SYS_CLOCK_GETTIME: i64 = 228;
pub const SYS_CLOCK_NANOSLEEP: i64 = 230;
pub const SYS_EXIT_GROUP: i64 = 231;
pub const SYS_OPENAT: i64 = 257;
pub const SYS_NEWFSTATAT: i64 = 262;
pub const SYS_GETRANDOM: i64 = 318;
pub const SYS_STATX: i64 = 332;

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const ENOMEM: i32 = 12;
pub const EACCES: i32 = 13;
pub const ENOENT: i32 = 2;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const EMFILE: i32 = 24;
pub const ETIMEDOUT: i32 = 110;

extern "C" {
    fn __errno_location() -> *mut i32;
}

#[inline]
pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

/// Turns a raw return value into the libc convention.
#[inline]
pub fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub fn exit_group(code: i32) -> ! {
    unsafe {
        loop {
            sys6(SYS_EXIT_GROUP, code as usize, 0, 0, 0, 0, 0);
        }
    }
}

pub unsafe fn mmap(addr: usize, len: usize, shared: bool) -> *mut u8 {
    // PROT_READ|WRITE, MAP_ANONYMOUS|NORESERVE, (SHARED|PRIVATE), FIXED_NOREPLACE
    let mut flags = 0x20 | 0x4000 | if shared { 1 } else { 2 };
    if addr != 0 {
        flags |= 0x100000;
    }
    let r = sys6(SYS_MMAP, addr, len, 3, flags, usize::MAX, 0);
    if r < 0 && r > -4096 {
        panic!("mmap {:#x} failed: {}", len, r);
    }
    r as *mut u8
}

pub fn futex_wait(w: &core::sync::atomic::AtomicU32, val: u32) {
    unsafe {
        sys6(SYS_FUTEX, w as *const _ as usize, 0 | 128, val as usize, 0, 0, 0);
    }
}

pub fn futex_wake(w: &core::sync::atomic::AtomicU32) {
    unsafe {
        sys6(SYS_FUTEX, w as *const _ as usize, 1 | 128, 1, 0, 0, 0);
    }
}

pub fn write_fd(fd: i32, s: &[u8]) {
    unsafe {
        sys6(SYS_WRITE, fd as usize, s.as_ptr() as usize, s.len(), 0, 0, 0);
    }
}

// ------------------------------------------------------------ processes

mod libc_fns {
    extern "C" {
        pub fn fork() -> i32;
        pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
        pub fn kill(pid: i32, sig: i32) -> i32;
        pub fn setrlimit(r: u32, l: *const [u64; 2]) -> i32;
        pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
        pub fn dup2(a: i32, b: i32) -> i32;
    }
}
pub unsafe fn fork() -> i32 {
    libc_fns::fork()
}
/// Waits for a child; returns its wait status.
pub unsafe fn waitpid(pid: i32) -> i32 {
    let mut st = 0;
    loop {
        let r = libc_fns::waitpid(pid, &mut st, 0);
        if r == pid {
            return st;
        }
        if r < 0 && *__errno_location() != EINTR {
            return -1;
        }
    }
}
/// Waits for any child without blocking: (pid, status).
pub unsafe fn wait_any(block: bool) -> Option<(i32, i32)> {
    let mut st = 0;
    let r = libc_fns::waitpid(-1, &mut st, if block { 0 } else { 1 });
    if r > 0 {
        Some((r, st))
    } else {
        None
    }
}
pub unsafe fn kill(pid: i32, sig: i32) {
    libc_fns::kill(pid, sig);
}
pub unsafe fn rlimit(r: u32, v: u64) {
    let l = [v, v];
    libc_fns::setrlimit(r, &l);
}
/// The process dies with its parent and leaves no core.
pub unsafe fn die_with_parent() {
    libc_fns::prctl(1, 9, 0, 0, 0);
    libc_fns::prctl(4, 0, 0, 0, 0);
}
pub unsafe fn dup2(a: i32, b: i32) {
    libc_fns::dup2(a, b);
}
pub unsafe fn pipe(p: &mut [i32; 2]) -> isize {
    sys6(293, p.as_mut_ptr() as usize, 0, 0, 0, 0, 0)
}
pub unsafe fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    loop {
        let r = sys6(SYS_READ, fd as usize, p as usize, n, 0, 0, 0);
        if r != -(EINTR as isize) {
            return r;
        }
    }
}
pub unsafe fn write(fd: i32, p: *const u8, n: usize) -> isize {
    sys6(SYS_WRITE, fd as usize, p as usize, n, 0, 0, 0)
}
pub unsafe fn close(fd: i32) {
    sys6(SYS_CLOSE, fd as usize, 0, 0, 0, 0, 0);
}
