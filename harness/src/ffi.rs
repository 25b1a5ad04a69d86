//! Thin bindings to the system's zlib, zstd and SQLite libraries. MapEditr
//! itself uses miniz_oxide and a bundled zstd, so decoding what it wrote with
//! these is a check against an independent implementation.

use std::ffi::{c_char, c_int, c_void, CString, CStr};

#[repr(C)]
struct ZStream {
	next_in: *const u8,
	avail_in: u32,
	total_in: u64,
	next_out: *mut u8,
	avail_out: u32,
	total_out: u64,
	msg: *const c_char,
	state: *mut c_void,
	zalloc: *mut c_void,
	zfree: *mut c_void,
	opaque: *mut c_void,
	data_type: c_int,
	adler: u64,
	reserved: u64,
}

#[link(name = "z")]
extern "C" {
	fn zlibVersion() -> *const c_char;
	fn inflateInit_(s: *mut ZStream, ver: *const c_char, size: c_int) -> c_int;
	fn inflate(s: *mut ZStream, flush: c_int) -> c_int;
	fn inflateEnd(s: *mut ZStream) -> c_int;
	fn compress2(dst: *mut u8, dst_len: *mut u64, src: *const u8, len: u64,
		level: c_int) -> c_int;
	fn compressBound(len: u64) -> u64;
}

pub fn zlib_compress(src: &[u8], level: i32) -> Vec<u8> {
	unsafe {
		let mut len = compressBound(src.len() as u64);
		let mut out = vec![0u8; len as usize];
		let rc = compress2(out.as_mut_ptr(), &mut len, src.as_ptr(),
			src.len() as u64, level);
		assert_eq!(rc, 0);
		out.truncate(len as usize);
		out
	}
}

/// Inflate one zlib stream at the start of `src`. Returns the data and how many
/// input bytes the stream took; checks the stream's checksum.
pub fn zlib_decompress(src: &[u8]) -> Result<(Vec<u8>, usize), String> {
	const LIMIT: usize = 1 << 30;
	unsafe {
		let mut s: ZStream = std::mem::zeroed();
		s.next_in = src.as_ptr();
		s.avail_in = src.len() as u32;
		let rc = inflateInit_(&mut s, zlibVersion(),
			std::mem::size_of::<ZStream>() as c_int);
		assert_eq!(rc, 0);
		let mut out = Vec::new();
		let mut buf = vec![0u8; 65536];
		loop {
			s.next_out = buf.as_mut_ptr();
			s.avail_out = buf.len() as u32;
			let rc = inflate(&mut s, 0);
			let n = buf.len() - s.avail_out as usize;
			out.extend_from_slice(&buf[..n]);
			if rc == 1 {
				let used = s.total_in as usize;
				inflateEnd(&mut s);
				return Ok((out, used));
			}
			if rc != 0 || (n == 0 && s.avail_in == 0) || out.len() > LIMIT {
				let msg = if s.msg.is_null() { "".into() }
					else { CStr::from_ptr(s.msg).to_string_lossy().into_owned() };
				inflateEnd(&mut s);
				return Err(format!("zlib stream error {} {}", rc, msg));
			}
		}
	}
}

#[repr(C)]
struct ZOut {
	dst: *mut u8,
	size: usize,
	pos: usize,
}
#[repr(C)]
struct ZIn {
	src: *const u8,
	size: usize,
	pos: usize,
}

#[link(name = "zstd")]
extern "C" {
	fn ZSTD_createCCtx() -> *mut c_void;
	fn ZSTD_freeCCtx(c: *mut c_void) -> usize;
	fn ZSTD_CCtx_setParameter(c: *mut c_void, p: c_int, v: c_int) -> usize;
	fn ZSTD_compress2(c: *mut c_void, dst: *mut u8, cap: usize, src: *const u8,
		len: usize) -> usize;
	fn ZSTD_compressStream2(c: *mut c_void, o: *mut ZOut, i: *mut ZIn,
		op: c_int) -> usize;
	fn ZSTD_compressBound(len: usize) -> usize;
	fn ZSTD_isError(c: usize) -> u32;
	fn ZSTD_createDCtx() -> *mut c_void;
	fn ZSTD_freeDCtx(c: *mut c_void) -> usize;
	fn ZSTD_decompressStream(d: *mut c_void, o: *mut ZOut, i: *mut ZIn) -> usize;
}

/// `streaming`: as a stream of unknown size, the way Minetest does it.
pub fn zstd_compress(src: &[u8], level: i32, streaming: bool, checksum: bool)
	-> Vec<u8>
{
	unsafe {
		let c = ZSTD_createCCtx();
		ZSTD_CCtx_setParameter(c, 100, level);
		ZSTD_CCtx_setParameter(c, 201, checksum as c_int);
		let mut out = vec![0u8; ZSTD_compressBound(src.len()) + 1024];
		let n = if streaming {
			let mut o = ZOut { dst: out.as_mut_ptr(), size: out.len(), pos: 0 };
			let half = src.len() / 2;
			let mut i = ZIn { src: src.as_ptr(), size: half, pos: 0 };
			let rc = ZSTD_compressStream2(c, &mut o, &mut i, 0);
			assert_eq!(ZSTD_isError(rc), 0);
			assert_eq!(i.pos, half);
			i.size = src.len();
			let rc = ZSTD_compressStream2(c, &mut o, &mut i, 2);
			assert_eq!(rc, 0);
			o.pos
		} else {
			ZSTD_compress2(c, out.as_mut_ptr(), out.len(), src.as_ptr(),
				src.len())
		};
		assert_eq!(ZSTD_isError(n), 0);
		ZSTD_freeCCtx(c);
		out.truncate(n);
		out
	}
}

/// Decompress one zstd frame at the start of `src`; returns data and used input.
pub fn zstd_decompress(src: &[u8]) -> Result<(Vec<u8>, usize), String> {
	const LIMIT: usize = 1 << 30;
	unsafe {
		let d = ZSTD_createDCtx();
		let mut out = Vec::new();
		let mut buf = vec![0u8; 131072];
		let mut i = ZIn { src: src.as_ptr(), size: src.len(), pos: 0 };
		loop {
			let mut o = ZOut { dst: buf.as_mut_ptr(), size: buf.len(), pos: 0 };
			let rc = ZSTD_decompressStream(d, &mut o, &mut i);
			out.extend_from_slice(&buf[..o.pos]);
			if ZSTD_isError(rc) != 0 || out.len() > LIMIT {
				ZSTD_freeDCtx(d);
				return Err("zstd stream error".into());
			}
			if rc == 0 {
				ZSTD_freeDCtx(d);
				return Ok((out, i.pos));
			}
			if o.pos < buf.len() && i.pos == i.size {
				ZSTD_freeDCtx(d);
				return Err("zstd stream truncated".into());
			}
		}
	}
}

#[link(name = "sqlite3")]
extern "C" {
	fn sqlite3_open_v2(f: *const c_char, db: *mut *mut c_void, flags: c_int,
		vfs: *const c_char) -> c_int;
	fn sqlite3_close_v2(db: *mut c_void) -> c_int;
	fn sqlite3_exec(db: *mut c_void, sql: *const c_char, cb: *mut c_void,
		arg: *mut c_void, err: *mut *mut c_char) -> c_int;
	fn sqlite3_prepare_v2(db: *mut c_void, sql: *const c_char, n: c_int,
		st: *mut *mut c_void, tail: *mut *const c_char) -> c_int;
	fn sqlite3_bind_null(st: *mut c_void, i: c_int) -> c_int;
	fn sqlite3_bind_int64(st: *mut c_void, i: c_int, v: i64) -> c_int;
	fn sqlite3_bind_blob(st: *mut c_void, i: c_int, p: *const u8, n: c_int,
		d: *mut c_void) -> c_int;
	fn sqlite3_step(st: *mut c_void) -> c_int;
	fn sqlite3_reset(st: *mut c_void) -> c_int;
	fn sqlite3_finalize(st: *mut c_void) -> c_int;
	fn sqlite3_column_int64(st: *mut c_void, i: c_int) -> i64;
	fn sqlite3_column_blob(st: *mut c_void, i: c_int) -> *const u8;
	fn sqlite3_column_text(st: *mut c_void, i: c_int) -> *const u8;
	fn sqlite3_column_bytes(st: *mut c_void, i: c_int) -> c_int;
	fn sqlite3_errmsg(db: *mut c_void) -> *const c_char;
}

pub struct Db(*mut c_void);

pub struct Stmt(*mut c_void, *mut c_void);

impl Db {
	pub fn open(path: &str, create: bool) -> Result<Db, String> {
		unsafe {
			let p = CString::new(path).unwrap();
			let mut db = std::ptr::null_mut();
			let flags = 2 | if create { 4 } else { 0 };
			let rc = sqlite3_open_v2(p.as_ptr(), &mut db, flags,
				std::ptr::null());
			let db = Db(db);
			if rc != 0 { Err(format!("open: {}", db.err())) } else { Ok(db) }
		}
	}
	pub fn open_ro(path: &str) -> Result<Db, String> {
		unsafe {
			let p = CString::new(path).unwrap();
			let mut db = std::ptr::null_mut();
			let rc = sqlite3_open_v2(p.as_ptr(), &mut db, 1, std::ptr::null());
			let db = Db(db);
			if rc != 0 { Err(format!("open: {}", db.err())) } else { Ok(db) }
		}
	}
	fn err(&self) -> String {
		unsafe {
			CStr::from_ptr(sqlite3_errmsg(self.0)).to_string_lossy().into()
		}
	}
	pub fn exec(&self, sql: &str) -> Result<(), String> {
		unsafe {
			let s = CString::new(sql).unwrap();
			let rc = sqlite3_exec(self.0, s.as_ptr(), std::ptr::null_mut(),
				std::ptr::null_mut(), std::ptr::null_mut());
			if rc != 0 {
				Err(format!("exec `{}`: {}", sql, self.err()))
			} else {
				Ok(())
			}
		}
	}
	pub fn prepare(&self, sql: &str) -> Result<Stmt, String> {
		unsafe {
			let s = CString::new(sql).unwrap();
			let mut st = std::ptr::null_mut();
			let rc = sqlite3_prepare_v2(self.0, s.as_ptr(), -1, &mut st,
				std::ptr::null_mut());
			if rc != 0 {
				Err(format!("prepare `{}`: {}", sql, self.err()))
			} else {
				Ok(Stmt(st, self.0))
			}
		}
	}
	pub fn text(&self, sql: &str) -> Result<Vec<String>, String> {
		let st = self.prepare(sql)?;
		let mut out = vec![];
		while st.step()? {
			out.push(String::from_utf8_lossy(&st.txt(0)).into_owned());
		}
		Ok(out)
	}
}

impl Drop for Db {
	fn drop(&mut self) {
		unsafe { sqlite3_close_v2(self.0); }
	}
}

impl Stmt {
	pub fn bind_i64(&self, i: i32, v: i64) {
		unsafe { assert_eq!(sqlite3_bind_int64(self.0, i, v), 0); }
	}
	pub fn bind_blob(&self, i: i32, v: &[u8]) {
		let p = if v.is_empty() { b"x".as_ptr() } else { v.as_ptr() };
		unsafe {
			assert_eq!(sqlite3_bind_blob(self.0, i, p, v.len() as c_int,
				-1isize as *mut c_void), 0);
		}
	}
	pub fn bind_null(&self, i: i32) {
		unsafe { assert_eq!(sqlite3_bind_null(self.0, i), 0); }
	}
	pub fn step(&self) -> Result<bool, String> {
		unsafe {
			match sqlite3_step(self.0) {
				100 => Ok(true),
				101 => Ok(false),
				rc => Err(format!("step: {} {}", rc,
					CStr::from_ptr(sqlite3_errmsg(self.1)).to_string_lossy())),
			}
		}
	}
	pub fn reset(&self) {
		unsafe { sqlite3_reset(self.0); }
	}
	pub fn i64(&self, i: i32) -> i64 {
		unsafe { sqlite3_column_int64(self.0, i) }
	}
	pub fn blob(&self, i: i32) -> Vec<u8> {
		unsafe {
			let p = sqlite3_column_blob(self.0, i);
			let n = sqlite3_column_bytes(self.0, i) as usize;
			if p.is_null() { vec![] }
			else { std::slice::from_raw_parts(p, n).to_vec() }
		}
	}
	pub fn txt(&self, i: i32) -> Vec<u8> {
		unsafe {
			let p = sqlite3_column_text(self.0, i);
			let n = sqlite3_column_bytes(self.0, i) as usize;
			if p.is_null() { vec![] }
			else { std::slice::from_raw_parts(p, n).to_vec() }
		}
	}
}

impl Drop for Stmt {
	fn drop(&mut self) {
		unsafe { sqlite3_finalize(self.0); }
	}
}
