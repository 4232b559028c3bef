//! Interposed libc entry points: futex, entropy, clocks, sleeping, threads and
//! file I/O below /simfs.  Everything else passes straight to the kernel.
use crate::raw::*;
use crate::rt::*;
use crate::vfs;

#[inline(always)]
fn sim() -> bool {
    simulated()
}

/// A std-level wait or wake: order it with everything that used a futex.
fn futex(addr: usize, op: i32, val: u32, timeout: usize, val3: u32) -> isize {
    let s = st();
    let me = TID.get() as usize;
    let cmd = op & 127;
    match cmd {
        0 | 9 => {
            point(K_ATOMIC);
            let cur = unsafe { *(addr as *const u32) };
            let bits = if cmd == 9 { val3 } else { u32::MAX };
            // release + acquire through the futex clock
            let v = s.th[me].vc;
            join_vc(&mut s.futex_vc, &v);
            s.th[me].vc[me] += 1;
            if cur != val {
                let v = s.futex_vc;
                join_vc(&mut s.th[me].vc, &v);
                return -(EAGAIN as isize);
            }
            probe(1);
            if timeout != 0 {
                let ts = unsafe { *(timeout as *const [i64; 2]) };
                let t = (ts[0] as u64).saturating_mul(1_000_000_000).saturating_add(ts[1] as u64);
                let d = if cmd == 9 { t } else { s.vtime + t };
                block(Ts::FutexTimed(addr, bits, d));
            } else {
                block(Ts::Futex(addr, bits));
            }
            let s = st();
            let v = s.futex_vc;
            join_vc(&mut s.th[me].vc, &v);
            if s.th[me].futex_timed_out {
                return -(ETIMEDOUT as isize);
            }
            0
        }
        1 | 10 => {
            let bits = if cmd == 10 { val3 } else { u32::MAX };
            let v = s.th[me].vc;
            join_vc(&mut s.futex_vc, &v);
            s.th[me].vc[me] += 1;
            let mut n = 0;
            for i in 0..s.n {
                if n >= val as isize {
                    break;
                }
                match s.th[i].state {
                    Ts::Futex(a, b) | Ts::FutexTimed(a, b, _) if a == addr && b & bits != 0 => {
                        s.th[i].state = Ts::Runnable;
                        n += 1;
                    }
                    _ => {}
                }
            }
            point(K_ATOMIC);
            n
        }
        _ => -(38isize),
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if sim() {
        let m = MODE.replace(0);
        let r: Option<isize> = match n {
            SYS_FUTEX => Some(futex(a, b as i32, c as u32, d, f as u32)),
            SYS_GETRANDOM => {
                entropy_fill(core::slice::from_raw_parts_mut(a as *mut u8, b));
                Some(b as isize)
            }
            SYS_SCHED_YIELD => {
                point(K_USER);
                Some(0)
            }
            SYS_STATX => vfs::statx(a as i32, b as *const i8, e as *mut u8),
            _ => None,
        };
        MODE.set(m);
        if let Some(r) = r {
            return ret(r) as i64;
        }
    }
    ret(sys6(n, a, b, c, d, e, f)) as i64
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if sim() {
        let m = MODE.replace(0);
        entropy_fill(core::slice::from_raw_parts_mut(buf, len));
        MODE.set(m);
        return len as isize;
    }
    ret(sys6(SYS_GETRANDOM, buf as usize, len, flags as usize, 0, 0, 0))
}

#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    if sim() {
        let m = MODE.replace(0);
        point(K_USER);
        MODE.set(m);
        return 0;
    }
    unsafe { ret(sys6(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0)) as i32 }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if sim() {
        let t = st().vtime;
        (*ts)[0] = (t / 1_000_000_000) as i64;
        (*ts)[1] = (t % 1_000_000_000) as i64;
        return 0;
    }
    ret(sys6(SYS_CLOCK_GETTIME, id as usize, ts as usize, 0, 0, 0, 0)) as i32
}

unsafe fn do_sleep(ts: *const [i64; 2], abs: bool) {
    let m = MODE.replace(0);
    let t = ((*ts)[0] as u64).saturating_mul(1_000_000_000).saturating_add((*ts)[1] as u64);
    let d = if abs { t } else { st().vtime + t };
    block(Ts::Sleep(d));
    MODE.set(m);
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if sim() {
        do_sleep(ts, false);
        return 0;
    }
    ret(sys6(SYS_NANOSLEEP, ts as usize, rem as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, ts: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if sim() {
        do_sleep(ts, flags & 1 != 0);
        return 0;
    }
    -sys6(SYS_CLOCK_NANOSLEEP, id as usize, flags as usize, ts as usize, rem as usize, 0, 0) as i32
}

// ------------------------------------------------------------ threads

extern "C" {
    fn dlsym(h: *mut u8, name: *const i8) -> *mut u8;
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut usize, attr: *const u8, f: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8,
) -> i32 {
    if sim() {
        let m = MODE.replace(0);
        probe(2);
        let r = match spawn_raw(f, arg, true) {
            Some(tid) => {
                *t = 0x7000_0000 + tid;
                0
            }
            None => EAGAIN,
        };
        if r == 0 {
            point(K_ATOMIC);
        }
        MODE.set(m);
        return r;
    }
    let p = dlsym(usize::MAX as *mut u8, b"pthread_create\0".as_ptr() as *const i8);
    let g: extern "C" fn(*mut usize, *const u8, extern "C" fn(*mut u8) -> *mut u8, *mut u8) -> i32 = core::mem::transmute(p);
    g(t, attr, f, arg)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: usize, r: *mut usize) -> i32 {
    if sim() && t >= 0x7000_0000 && t < 0x7000_0000 + MAXT {
        let m = MODE.replace(0);
        join(t - 0x7000_0000);
        if !r.is_null() {
            *r = st().th[t - 0x7000_0000].retval;
        }
        MODE.set(m);
        return 0;
    }
    let p = dlsym(usize::MAX as *mut u8, b"pthread_join\0".as_ptr() as *const i8);
    let g: extern "C" fn(usize, *mut usize) -> i32 = core::mem::transmute(p);
    g(t, r)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: usize) -> i32 {
    if sim() && t >= 0x7000_0000 && t < 0x7000_0000 + MAXT {
        st().th[t - 0x7000_0000].detached = true;
        return 0;
    }
    let p = dlsym(usize::MAX as *mut u8, b"pthread_detach\0".as_ptr() as *const i8);
    let g: extern "C" fn(usize) -> i32 = core::mem::transmute(p);
    g(t)
}

// ------------------------------------------------------------ files

macro_rules! io {
    ($e:expr) => {{
        let m = MODE.replace(0);
        let r = $e;
        MODE.set(m);
        r
    }};
}

unsafe fn do_open(dir: i32, path: *const i8, flags: i32, mode: u32) -> i32 {
    if sim() {
        if let Some(r) = io!(vfs::open(path, flags)) {
            return ret(r) as i32;
        }
    }
    ret(sys6(SYS_OPENAT, dir as isize as usize, path as usize, flags as usize, mode as usize, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
    do_open(-100, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const i8, flags: i32, mode: u32) -> i32 {
    do_open(-100, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, path: *const i8, flags: i32, mode: u32) -> i32 {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: i32, path: *const i8, flags: i32, mode: u32) -> i32 {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if vfs::is_sim(fd) {
        return ret(io!(vfs::read(fd, buf, n, None)));
    }
    ret(sys6(SYS_READ, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize {
    if vfs::is_sim(fd) {
        return ret(io!(vfs::read(fd, buf, n, Some(off as usize))));
    }
    ret(sys6(SYS_PREAD64, fd as usize, buf as usize, n, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, iov: *const [usize; 2], cnt: i32) -> isize {
    if vfs::is_sim(fd) {
        let mut total = 0;
        for i in 0..cnt as usize {
            let v = *iov.add(i);
            if v[1] == 0 {
                continue;
            }
            let r = io!(vfs::read(fd, v[0] as *mut u8, v[1], None));
            if r < 0 {
                return if total > 0 { total } else { ret(r) };
            }
            total += r;
            if (r as usize) < v[1] {
                break;
            }
        }
        return total;
    }
    ret(sys6(SYS_READV, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, wh: i32) -> i64 {
    if vfs::is_sim(fd) {
        return ret(io!(vfs::lseek(fd, off, wh))) as i64;
    }
    ret(sys6(SYS_LSEEK, fd as usize, off as usize, wh as usize, 0, 0, 0)) as i64
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, off: i64, wh: i32) -> i64 {
    lseek64(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if vfs::is_sim(fd) {
        return ret(io!(vfs::close(fd))) as i32;
    }
    ret(sys6(SYS_CLOSE, fd as usize, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    if vfs::is_sim(fd) {
        return 0;
    }
    ret(sys6(SYS_FCNTL, fd as usize, cmd as usize, arg, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const i8, flags: i32, mask: u32, out: *mut u8) -> i32 {
    if sim() {
        if let Some(r) = io!(vfs::statx(dir, path, out)) {
            return ret(r) as i32;
        }
    }
    ret(sys6(SYS_STATX, dir as isize as usize, path as usize, flags as usize, mask as usize, out as usize, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, out: *mut u8) -> i32 {
    if vfs::is_sim(fd) {
        return ret(io!(vfs::fstat(fd, out))) as i32;
    }
    ret(sys6(SYS_FSTAT, fd as usize, out as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: i32, out: *mut u8) -> i32 {
    fstat64(fd, out)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const i8, out: *mut u8) -> i32 {
    if sim() {
        if let Some(r) = io!(vfs::stat(path, out)) {
            return ret(r) as i32;
        }
    }
    ret(sys6(SYS_NEWFSTATAT, -100isize as usize, path as usize, out as usize, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise64(_fd: i32, _o: i64, _l: i64, _a: i32) -> i32 {
    0
}
