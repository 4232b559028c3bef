//! A simulated disk below /simfs with injectable faults.
use crate::raw::*;
use crate::rt::*;

pub const FD0: i32 = 1 << 20;

#[derive(Clone, Debug, Default)]
pub struct Inode {
    pub data: Vec<u8>,
    pub is_dir: bool,
}

/// What the next read call does.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ReadFault {
    None,
    Short(u32),
    Eintr,
    Eio,
}

pub struct Fd {
    pub inode: usize,
    pub pos: usize,
    pub open: bool,
}

#[derive(Default)]
pub struct Vfs {
    pub inodes: Vec<Inode>,
    pub names: Vec<(String, usize)>,
    pub fds: Vec<Fd>,
    /// consumed front to back, one per read call of the reading thread
    pub read_faults: Vec<ReadFault>,
    pub read_n: usize,
    pub default_chunk: usize, // 0: unlimited
    pub open_faults: Vec<i32>,
    pub open_n: usize,
    pub stat_err: i32,
    pub stat_lie: Option<u64>,
    pub hard_errors: u64, // hard errors actually returned
    pub log: Vec<(u8, u64, u64)>,
    /// called after every system call with the vfs (used to record versions)
    pub reads: u64,
    pub opens: u64,
    /// hard errors of read and open, per thread
    pub err_by: [u64; 16],
}

pub static mut VFS: Option<Vfs> = None;

pub fn vfs() -> &'static mut Vfs {
    unsafe { VFS.get_or_insert_with(Vfs::default) }
}

#[inline(always)]
pub fn is_sim(fd: i32) -> bool {
    fd >= FD0
}

fn cstr(p: *const i8) -> &'static str {
    unsafe { std::ffi::CStr::from_ptr(p).to_str().unwrap_or("") }
}

impl Vfs {
    pub fn lookup(&self, name: &str) -> Option<usize> {
        self.names.iter().find(|x| x.0 == name).map(|x| x.1)
    }
    pub fn put(&mut self, name: &str, data: Vec<u8>) -> usize {
        self.inodes.push(Inode { data, is_dir: false });
        let i = self.inodes.len() - 1;
        if let Some(e) = self.names.iter_mut().find(|x| x.0 == name) {
            e.1 = i;
        } else {
            self.names.push((name.to_string(), i));
        }
        i
    }
    pub fn open_fds(&self) -> usize {
        self.fds.iter().filter(|f| f.open).count()
    }
}

pub fn open(path: *const i8, _flags: i32) -> Option<isize> {
    let name = cstr(path);
    if !name.starts_with("/simfs/") {
        return None;
    }
    point(K_IO);
    let v = vfs();
    v.opens += 1;
    let n = v.open_n;
    v.open_n += 1;
    if n < v.open_faults.len() && v.open_faults[n] != 0 {
        let e = v.open_faults[n];
        event(20, e as u64);
        if e == EINTR {
            count_fault(F_EINTR_OPEN);
        } else {
            count_fault(F_OPEN_ERR);
            v.hard_errors += 1;
            v.err_by[TID.get() as usize & 15] += 1;
        }
        return Some(-(e as isize));
    }
    match v.lookup(name) {
        None => {
            v.hard_errors += 1;
            Some(-(ENOENT as isize))
        }
        Some(i) => {
            v.fds.push(Fd { inode: i, pos: 0, open: true });
            Some((FD0 + v.fds.len() as i32 - 1) as isize)
        }
    }
}

fn get(fd: i32) -> Option<&'static mut Fd> {
    let v = vfs();
    let i = (fd - FD0) as usize;
    if i < v.fds.len() && v.fds[i].open {
        Some(&mut v.fds[i])
    } else {
        None
    }
}

pub fn read(fd: i32, buf: *mut u8, n: usize, at: Option<usize>) -> isize {
    point(K_IO);
    let v = vfs();
    let f = match get(fd) {
        Some(f) => f,
        None => {
            violate("bad_fd", "read on a closed file descriptor");
        }
    };
    v.reads += 1;
    if v.inodes[f.inode].is_dir {
        v.hard_errors += 1;
        return -(EISDIR as isize);
    }
    let k = v.read_n;
    v.read_n += 1;
    let fault = if k < v.read_faults.len() { v.read_faults[k] } else { ReadFault::None };
    let mut want = n;
    match fault {
        ReadFault::Eintr => {
            count_fault(F_EINTR);
            return -(EINTR as isize);
        }
        ReadFault::Eio => {
            count_fault(F_EIO);
            v.hard_errors += 1;
            v.err_by[TID.get() as usize & 15] += 1;
            return -(EIO as isize);
        }
        ReadFault::Short(m) => {
            if (m as usize) < want && m > 0 {
                want = m as usize;
            }
        }
        ReadFault::None => {
            if v.default_chunk > 0 {
                want = want.min(v.default_chunk);
            }
        }
    }
    let d = &v.inodes[f.inode].data;
    let pos = at.unwrap_or(f.pos);
    let avail = d.len().saturating_sub(pos);
    let m = want.min(avail);
    if m < n.min(avail) {
        count_fault(F_SHORT);
    }
    if m > 0 {
        if crate::mem::in_arena(buf as usize) {
            crate::mem::check(buf as usize, m, true, false, false);
        }
        unsafe { core::ptr::copy_nonoverlapping(d.as_ptr().add(pos), buf, m) };
    }
    if at.is_none() {
        f.pos += m;
    }
    event(21, m as u64);
    m as isize
}

pub fn lseek(fd: i32, off: i64, wh: i32) -> isize {
    let f = match get(fd) {
        Some(f) => f,
        None => return -(EBADF as isize),
    };
    let len = vfs().inodes[f.inode].data.len() as i64;
    let p = match wh {
        0 => off,
        1 => f.pos as i64 + off,
        2 => len + off,
        _ => return -(EINVAL as isize),
    };
    if p < 0 {
        return -(EINVAL as isize);
    }
    f.pos = p as usize;
    p as isize
}

pub fn close(fd: i32) -> isize {
    point(K_IO);
    match get(fd) {
        Some(f) => {
            f.open = false;
            0
        }
        None => violate("bad_fd", "close of a closed file descriptor"),
    }
}

fn stat_of(inode: usize) -> Result<(u64, bool), isize> {
    let v = vfs();
    if v.stat_err != 0 {
        count_fault(F_STAT_ERR);
        v.hard_errors += 1;
        return Err(-(v.stat_err as isize));
    }
    let mut size = v.inodes[inode].data.len() as u64;
    if let Some(l) = v.stat_lie {
        if l != size {
            count_fault(F_STAT_LIE);
        }
        size = l;
    }
    Ok((size, v.inodes[inode].is_dir))
}

pub fn statx(dir: i32, path: *const i8, out: *mut u8) -> Option<isize> {
    let inode = if is_sim(dir) {
        match get(dir) {
            Some(f) => f.inode,
            None => return Some(-(EBADF as isize)),
        }
    } else {
        if path.is_null() {
            return None;
        }
        let name = cstr(path);
        if !name.starts_with("/simfs/") {
            return None;
        }
        match vfs().lookup(name) {
            Some(i) => i,
            None => {
                vfs().hard_errors += 1;
                return Some(-(ENOENT as isize));
            }
        }
    };
    point(K_IO);
    match stat_of(inode) {
        Err(e) => Some(e),
        Ok((size, is_dir)) => unsafe {
            core::ptr::write_bytes(out, 0, 256);
            *(out as *mut u32) = 0x7ff; // stx_mask
            *(out.add(4) as *mut u32) = 4096; // blksize
            *(out.add(16) as *mut u32) = 1; // nlink
            *(out.add(28) as *mut u16) = if is_dir { 0o40755 } else { 0o100644 };
            *(out.add(32) as *mut u64) = 1000 + inode as u64;
            *(out.add(40) as *mut u64) = size;
            *(out.add(48) as *mut u64) = size / 512 + 1;
            Some(0)
        },
    }
}

unsafe fn fill_stat(inode: usize, out: *mut u8) -> isize {
    match stat_of(inode) {
        Err(e) => e,
        Ok((size, is_dir)) => {
            core::ptr::write_bytes(out, 0, 144);
            *(out.add(8) as *mut u64) = 1000 + inode as u64;
            *(out.add(16) as *mut u64) = 1;
            *(out.add(24) as *mut u32) = if is_dir { 0o40755 } else { 0o100644 };
            *(out.add(48) as *mut u64) = size;
            *(out.add(56) as *mut u64) = 4096;
            *(out.add(64) as *mut u64) = size / 512 + 1;
            0
        }
    }
}

pub fn fstat(fd: i32, out: *mut u8) -> isize {
    point(K_IO);
    match get(fd) {
        Some(f) => unsafe { fill_stat(f.inode, out) },
        None => -(EBADF as isize),
    }
}

pub fn stat(path: *const i8, out: *mut u8) -> Option<isize> {
    let name = cstr(path);
    if !name.starts_with("/simfs/") {
        return None;
    }
    point(K_IO);
    Some(match vfs().lookup(name) {
        Some(i) => unsafe { fill_stat(i, out) },
        None => {
            vfs().hard_errors += 1;
            -(ENOENT as isize)
        }
    })
}
