//! Minimal bindings to the system's sqlite3, zlib and zstd. The monitor uses these
//! (and not the crates the program under test is built from) so that its decoders
//! are independent of the code it judges.
#![allow(non_camel_case_types, dead_code)]
use std::ffi::{c_char, c_int, c_uint, c_ulong, c_void, CStr, CString};

#[link(name = "sqlite3")]
extern "C" {
    fn sqlite3_open_v2(f: *const c_char, db: *mut *mut c_void, flags: c_int, vfs: *const c_char) -> c_int;
    fn sqlite3_close(db: *mut c_void) -> c_int;
    fn sqlite3_prepare_v2(db: *mut c_void, sql: *const c_char, n: c_int, st: *mut *mut c_void, tail: *mut *const c_char) -> c_int;
    fn sqlite3_step(st: *mut c_void) -> c_int;
    fn sqlite3_finalize(st: *mut c_void) -> c_int;
    fn sqlite3_reset(st: *mut c_void) -> c_int;
    fn sqlite3_bind_int64(st: *mut c_void, i: c_int, v: i64) -> c_int;
    fn sqlite3_bind_blob(st: *mut c_void, i: c_int, p: *const c_void, n: c_int, d: isize) -> c_int;
    fn sqlite3_bind_zeroblob(st: *mut c_void, i: c_int, n: c_int) -> c_int;
    fn sqlite3_bind_null(st: *mut c_void, i: c_int) -> c_int;
    fn sqlite3_bind_text(st: *mut c_void, i: c_int, p: *const c_char, n: c_int, d: isize) -> c_int;
    fn sqlite3_column_int64(st: *mut c_void, i: c_int) -> i64;
    fn sqlite3_column_blob(st: *mut c_void, i: c_int) -> *const c_void;
    fn sqlite3_column_text(st: *mut c_void, i: c_int) -> *const u8;
    fn sqlite3_column_bytes(st: *mut c_void, i: c_int) -> c_int;
    fn sqlite3_column_count(st: *mut c_void) -> c_int;
    fn sqlite3_column_type(st: *mut c_void, i: c_int) -> c_int;
    fn sqlite3_errmsg(db: *mut c_void) -> *const c_char;
    fn sqlite3_busy_timeout(db: *mut c_void, ms: c_int) -> c_int;
}

pub struct Db(*mut c_void);
unsafe impl Send for Db {}

pub struct Stmt<'a>(*mut c_void, &'a Db);

impl Db {
    fn open_flags(path: &str, flags: c_int) -> Result<Db, String> {
        let p = CString::new(path).unwrap();
        let mut h = std::ptr::null_mut();
        let rc = unsafe { sqlite3_open_v2(p.as_ptr(), &mut h, flags, std::ptr::null()) };
        let db = Db(h);
        if rc != 0 { return Err(format!("sqlite open {path}: rc {rc}")); }
        unsafe { sqlite3_busy_timeout(db.0, 10_000); }
        Ok(db)
    }
    pub fn create(path: &str) -> Result<Db, String> { Self::open_flags(path, 0x2 | 0x4) }
    pub fn open(path: &str) -> Result<Db, String> { Self::open_flags(path, 0x2) }
    pub fn open_ro(path: &str) -> Result<Db, String> { Self::open_flags(path, 0x1) }
    pub fn err(&self) -> String {
        unsafe { CStr::from_ptr(sqlite3_errmsg(self.0)).to_string_lossy().into_owned() }
    }
    pub fn exec(&self, sql: &str) -> Result<(), String> {
        let mut s = self.prepare(sql)?;
        while s.step()? {}
        Ok(())
    }
    pub fn prepare(&self, sql: &str) -> Result<Stmt<'_>, String> {
        let c = CString::new(sql).unwrap();
        let mut st = std::ptr::null_mut();
        let rc = unsafe { sqlite3_prepare_v2(self.0, c.as_ptr(), -1, &mut st, std::ptr::null_mut()) };
        if rc != 0 { return Err(format!("prepare {sql:?}: {}", self.err())); }
        Ok(Stmt(st, self))
    }
    /// First column of the first row as text.
    pub fn scalar(&self, sql: &str) -> Result<String, String> {
        let mut s = self.prepare(sql)?;
        if s.step()? { Ok(String::from_utf8_lossy(&s.blob(0)).into_owned()) } else { Ok(String::new()) }
    }
    /// All rows, all columns, rendered (used for schema/extra-table identity).
    pub fn dump(&self, sql: &str) -> Result<Vec<String>, String> {
        let mut s = self.prepare(sql)?;
        let mut v = vec![];
        while s.step()? {
            let n = unsafe { sqlite3_column_count(s.0) };
            v.push((0..n).map(|i| format!("{}:{:?}", s.ty(i), s.blob(i))).collect::<Vec<_>>().join("|"));
        }
        Ok(v)
    }
}
impl Drop for Db { fn drop(&mut self) { unsafe { sqlite3_close(self.0); } } }

impl Stmt<'_> {
    pub fn step(&mut self) -> Result<bool, String> {
        match unsafe { sqlite3_step(self.0) } {
            100 => Ok(true),
            101 => Ok(false),
            rc => Err(format!("step: rc {rc}: {}", self.1.err())),
        }
    }
    pub fn reset(&mut self) { unsafe { sqlite3_reset(self.0); } }
    pub fn bind_i64(&mut self, i: i32, v: i64) { unsafe { sqlite3_bind_int64(self.0, i, v); } }
    pub fn bind_null(&mut self, i: i32) { unsafe { sqlite3_bind_null(self.0, i); } }
    pub fn bind_text(&mut self, i: i32, v: &[u8]) { unsafe { sqlite3_bind_text(self.0, i, v.as_ptr() as *const c_char, v.len() as c_int, -1); } }
    pub fn bind_blob(&mut self, i: i32, v: &[u8]) {
        unsafe {
            if v.is_empty() { sqlite3_bind_zeroblob(self.0, i, 0); }
            else { sqlite3_bind_blob(self.0, i, v.as_ptr() as *const c_void, v.len() as c_int, -1); }
        }
    }
    pub fn i64(&self, i: i32) -> i64 { unsafe { sqlite3_column_int64(self.0, i) } }
    pub fn ty(&self, i: i32) -> i32 { unsafe { sqlite3_column_type(self.0, i) } }
    pub fn blob(&self, i: i32) -> Vec<u8> {
        unsafe {
            // Text conversion only for non-blob values (blob() on integers renders text).
            let p = if sqlite3_column_type(self.0, i) == 4 { sqlite3_column_blob(self.0, i) as *const u8 }
                else { sqlite3_column_text(self.0, i) };
            let n = sqlite3_column_bytes(self.0, i) as usize;
            if p.is_null() || n == 0 { vec![] } else { std::slice::from_raw_parts(p, n).to_vec() }
        }
    }
}
impl Drop for Stmt<'_> { fn drop(&mut self) { unsafe { sqlite3_finalize(self.0); } } }

#[repr(C)]
struct z_stream {
    next_in: *const u8, avail_in: c_uint, total_in: c_ulong,
    next_out: *mut u8, avail_out: c_uint, total_out: c_ulong,
    msg: *const c_char, state: *mut c_void,
    zalloc: *const c_void, zfree: *const c_void, opaque: *const c_void,
    data_type: c_int, adler: c_ulong, reserved: c_ulong,
}
#[link(name = "z")]
extern "C" {
    fn zlibVersion() -> *const c_char;
    fn inflateInit_(s: *mut z_stream, v: *const c_char, sz: c_int) -> c_int;
    fn inflate(s: *mut z_stream, flush: c_int) -> c_int;
    fn inflateEnd(s: *mut z_stream) -> c_int;
    fn compress2(dst: *mut u8, dl: *mut c_ulong, src: *const u8, sl: c_ulong, level: c_int) -> c_int;
    fn compressBound(l: c_ulong) -> c_ulong;
}

pub fn zlib_compress(src: &[u8], level: i32) -> Vec<u8> {
    unsafe {
        let mut n = compressBound(src.len() as c_ulong);
        let mut v = vec![0u8; n as usize];
        assert_eq!(compress2(v.as_mut_ptr(), &mut n, src.as_ptr(), src.len() as c_ulong, level), 0);
        v.truncate(n as usize);
        v
    }
}

/// Decompress one zlib stream; returns (data, bytes consumed).
pub fn zlib_decompress(src: &[u8], cap: usize) -> Result<(Vec<u8>, usize), String> {
    unsafe {
        let mut s: z_stream = std::mem::zeroed();
        if inflateInit_(&mut s, zlibVersion(), std::mem::size_of::<z_stream>() as c_int) != 0 {
            return Err("inflateInit".into());
        }
        s.next_in = src.as_ptr();
        s.avail_in = src.len() as c_uint;
        let mut out = Vec::new();
        let mut buf = vec![0u8; 32768];
        let res = loop {
            s.next_out = buf.as_mut_ptr();
            s.avail_out = buf.len() as c_uint;
            let rc = inflate(&mut s, 0);
            let got = buf.len() - s.avail_out as usize;
            out.extend_from_slice(&buf[..got]);
            if out.len() > cap { break Err("zlib: too large".to_string()); }
            match rc {
                1 => break Ok(()),
                0 if got > 0 || s.avail_in > 0 => {}
                _ => break Err(format!("zlib: rc {rc}")),
            }
        };
        let used = src.len() - s.avail_in as usize;
        inflateEnd(&mut s);
        res.map(|_| (out, used))
    }
}

#[repr(C)]
struct ZBuf { p: *mut c_void, size: usize, pos: usize }
#[link(name = "zstd")]
extern "C" {
    fn ZSTD_createCCtx() -> *mut c_void;
    fn ZSTD_freeCCtx(c: *mut c_void) -> usize;
    fn ZSTD_CCtx_setParameter(c: *mut c_void, p: c_int, v: c_int) -> usize;
    fn ZSTD_compress2(c: *mut c_void, d: *mut u8, dn: usize, s: *const u8, sn: usize) -> usize;
    fn ZSTD_compressBound(n: usize) -> usize;
    fn ZSTD_isError(c: usize) -> c_uint;
    fn ZSTD_createDStream() -> *mut c_void;
    fn ZSTD_freeDStream(d: *mut c_void) -> usize;
    fn ZSTD_initDStream(d: *mut c_void) -> usize;
    fn ZSTD_decompressStream(d: *mut c_void, o: *mut ZBuf, i: *mut ZBuf) -> usize;
}

pub fn zstd_compress(src: &[u8], level: i32, content_size: bool, checksum: bool) -> Vec<u8> {
    unsafe {
        let c = ZSTD_createCCtx();
        ZSTD_CCtx_setParameter(c, 100, level);
        ZSTD_CCtx_setParameter(c, 200, content_size as c_int);
        ZSTD_CCtx_setParameter(c, 201, checksum as c_int);
        let mut v = vec![0u8; ZSTD_compressBound(src.len())];
        let n = ZSTD_compress2(c, v.as_mut_ptr(), v.len(), src.as_ptr(), src.len());
        assert_eq!(ZSTD_isError(n), 0);
        v.truncate(n);
        ZSTD_freeCCtx(c);
        v
    }
}

/// Decompress one zstd frame; returns (data, bytes consumed).
pub fn zstd_decompress(src: &[u8], cap: usize) -> Result<(Vec<u8>, usize), String> {
    unsafe {
        let d = ZSTD_createDStream();
        ZSTD_initDStream(d);
        let mut inp = ZBuf { p: src.as_ptr() as *mut c_void, size: src.len(), pos: 0 };
        let mut out = Vec::new();
        let mut buf = vec![0u8; 131072];
        let res = loop {
            let mut o = ZBuf { p: buf.as_mut_ptr() as *mut c_void, size: buf.len(), pos: 0 };
            let before = inp.pos;
            let n = ZSTD_decompressStream(d, &mut o, &mut inp);
            out.extend_from_slice(&buf[..o.pos]);
            if ZSTD_isError(n) != 0 { break Err("zstd: corrupt".to_string()); }
            if n == 0 { break Ok(()); }
            if out.len() > cap { break Err("zstd: too large".to_string()); }
            if o.pos == 0 && inp.pos == before { break Err("zstd: truncated".to_string()); }
        };
        ZSTD_freeDStream(d);
        res.map(|_| (out, inp.pos))
    }
}

extern "C" {
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    fn prlimit(pid: c_int, res: c_int, new: *const [u64; 2], old: *mut [u64; 2]) -> c_int;
}
pub fn limit_cpu(pid: u32, secs: u64) {
    let l = [secs, secs + 5];
    unsafe { prlimit(pid as c_int, 0, &l, std::ptr::null_mut()); }
}

extern "C" {
    fn sched_setaffinity(pid: c_int, n: usize, mask: *const u64) -> c_int;
    fn fcntl(fd: c_int, cmd: c_int, ...) -> c_int;
    fn sysconf(n: c_int) -> std::ffi::c_long;
}
pub fn cpus() -> usize { unsafe { sysconf(84).max(1) as usize } }
/// Run the child on one processor only.
pub fn pin(c: &mut std::process::Command, cpu: usize) {
    use std::os::unix::process::CommandExt;
    let mut m = [0u64; 16];
    m[cpu / 64 % 16] |= 1 << (cpu % 64);
    unsafe { c.pre_exec(move || { sched_setaffinity(0, 128, m.as_ptr()); Ok(()) }); }
}
pub fn pipe() -> Result<(std::io::PipeReader, std::io::PipeWriter), String> { std::io::pipe().map_err(|e| e.to_string()) }
/// Smallest pipe capacity; returns it.
pub fn shrink_pipe(w: &std::io::PipeWriter) -> i32 {
    use std::os::fd::AsRawFd;
    unsafe { fcntl(w.as_raw_fd(), 1031, 4096 as c_int) }
}

extern "C" { fn wait4(pid: c_int, st: *mut c_int, opt: c_int, ru: *mut [i64; 18]) -> c_int; }
/// The end of a child and the processor time it took, once it has ended.
pub fn reap(pid: u32) -> Option<(crate::exec::End, f64)> {
    let (mut st, mut ru) = (0, [0i64; 18]);
    if unsafe { wait4(pid as c_int, &mut st, 1, &mut ru) } != pid as c_int { return None; }
    let cpu = (ru[0] + ru[2]) as f64 + (ru[1] + ru[3]) as f64 / 1e6;
    Some((if st & 0x7f == 0 { crate::exec::End::Exit(st >> 8 & 0xff) } else { crate::exec::End::Signal(st & 0x7f) }, cpu))
}
