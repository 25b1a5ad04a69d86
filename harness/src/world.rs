//! Worlds (rows of a map database), running MapEditr on them, and reading the
//! result back.

use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

use crate::codec::{self, Block};
use crate::ffi::Db;
use crate::src::Rng;

pub type V3 = [i64; 3];

pub fn key_of(p: V3) -> i64 {
	p[0] + p[1] * 4096 + p[2] * 4096 * 4096
}

/// Minetest's own getIntegerAsBlock.
pub fn pos_of(key: i64) -> V3 {
	let mut k = key;
	let mut out = [0; 3];
	for c in out.iter_mut() {
		let mut v = k.rem_euclid(4096);
		if v >= 2048 { v -= 4096; }
		*c = v;
		k = (k - v) / 4096;
	}
	out
}

#[derive(Clone, Debug)]
pub enum St {
	/// A well-formed block.
	Good(Box<Block>),
	/// Definitely unsupported or malformed.
	Bad,
	/// Odd, but some readers could make sense of it.
	Gray,
}

#[derive(Clone, Debug)]
pub struct Row {
	pub bytes: Vec<u8>,
	pub st: St,
}

impl Row {
	pub fn classify(bytes: Vec<u8>) -> Row {
		let st = match codec::decode(&bytes, true) {
			Ok(b) => St::Good(Box::new(b)),
			Err(_) => match codec::decode(&bytes, false) {
				Ok(_) => St::Gray,
				// Not all decoders refuse these, and if the distance does not
				// matter for the result even the checksum matches.
				Err(e) if e.contains("zlib") && (e.contains("too far back")
					|| e.contains("distance code") || e.contains(" set")) =>
					St::Gray,
				Err(_) => St::Bad,
			}
		};
		Row { bytes, st }
	}
	pub fn good(&self) -> Option<&Block> {
		match &self.st { St::Good(b) => Some(b), _ => None }
	}
}

#[derive(Clone, Debug, Default)]
pub struct DbOpts {
	pub page_size: u32,
	pub shuffle: u64,
	pub not_null: bool,
	pub extra_table: bool,
	pub auto_vacuum: bool,
	/// Extra junk rows inserted and deleted again, leaving free pages.
	pub junk: u32,
	/// Rows of small mapblocks that were stored between the others and deleted
	/// again, whose free pages were then used up: sparsely filled pages.
	pub frag: u32,
	pub wal: bool,
	pub without_rowid: bool,
	/// User version, application ID, a view, an index and a trigger.
	pub user: bool,
	/// Statistics, as ANALYZE leaves them, which are not up to date.
	pub stats: bool,
	/// Store empty data as NULL.
	pub nulls: bool,
}

#[derive(Clone, Debug, Default)]
pub struct World {
	pub rows: BTreeMap<i64, Row>,
	pub opts: DbOpts,
}

/// Not a key of any mapblock.
const FILLER: i64 = 1 << 40;

pub fn write_db(path: &Path, w: &World) -> Result<(), String> {
	let _ = std::fs::remove_file(path);
	let db = Db::open(path.to_str().unwrap(), true)?;
	let ps = if w.opts.page_size == 0 { 4096 } else { w.opts.page_size };
	db.exec(&format!("PRAGMA page_size={}; PRAGMA synchronous=OFF; \
		PRAGMA journal_mode=MEMORY; {} BEGIN;", ps,
		if w.opts.auto_vacuum { "PRAGMA auto_vacuum=1;" } else { "" }))?;
	db.exec(if w.opts.without_rowid {
		"CREATE TABLE `blocks` (`pos` INT PRIMARY KEY, `data` BLOB) WITHOUT ROWID;"
	} else if w.opts.not_null {
		"CREATE TABLE `blocks` (`pos` INT NOT NULL PRIMARY KEY, `data` BLOB);"
	} else {
		"CREATE TABLE IF NOT EXISTS `blocks` (`pos` INT PRIMARY KEY, `data` BLOB);"
	})?;
	let mut order: Vec<i64> = w.rows.keys().copied().collect();
	if w.opts.shuffle != 0 {
		let mut r = Rng::new(w.opts.shuffle);
		for i in (1..order.len()).rev() {
			order.swap(i, r.below(i as u64 + 1) as usize);
		}
	}
	{
		let st = db.prepare("INSERT INTO blocks (pos, data) VALUES (?, ?)")?;
		for (i, k) in order.iter().enumerate() {
			for j in 0..w.opts.frag as usize {
				st.bind_i64(1, FILLER + (i * 64 + j) as i64);
				st.bind_blob(2, &vec![7; 20 + (i * 131 + j * 37) % 500]);
				st.step()?;
				st.reset();
			}
			st.bind_i64(1, *k);
			let b = &w.rows[k].bytes;
			if w.opts.nulls && b.is_empty() { st.bind_null(2) }
			else { st.bind_blob(2, b) }
			st.step()?;
			st.reset();
		}
	}
	if w.opts.extra_table {
		db.exec("CREATE TABLE other (a TEXT, b INTEGER); \
			INSERT INTO other VALUES ('keep', 42), ('me', NULL);")?;
	}
	if w.opts.user {
		db.exec("PRAGMA user_version=17; PRAGMA application_id=1234; \
			CREATE VIEW big AS SELECT pos FROM blocks WHERE length(data) > 100; \
			CREATE TABLE log (n INTEGER PRIMARY KEY, what TEXT UNIQUE); \
			CREATE INDEX log_what ON log (what DESC); \
			CREATE TRIGGER trg AFTER DELETE ON log BEGIN SELECT 1; END;")?;
	}
	if w.opts.junk > 0 {
		db.exec("CREATE TABLE junk (d BLOB);")?;
		for _ in 0..w.opts.junk {
			db.exec("INSERT INTO junk VALUES (zeroblob(3000));")?;
		}
		db.exec("DROP TABLE junk;")?;
	}
	if w.opts.frag > 0 {
		db.exec(&format!("DELETE FROM blocks WHERE pos >= {}; \
			CREATE TABLE later (d BLOB); CREATE TABLE sparse (d BLOB);", FILLER))?;
		for _ in 0..w.opts.frag * 20 {
			db.exec(&format!("INSERT INTO sparse VALUES (zeroblob({}));", ps / 16))?;
		}
		db.exec("DELETE FROM sparse WHERE rowid % 5 > 1;")?;
		while db.text("PRAGMA freelist_count")? != ["0"] {
			db.exec(&format!("INSERT INTO later VALUES (zeroblob({}));", ps - 100))?;
		}
	}
	if w.opts.stats {
		db.exec("CREATE TABLE seq (n INTEGER PRIMARY KEY AUTOINCREMENT); \
			INSERT INTO seq VALUES (7); DELETE FROM seq; ANALYZE; \
			DELETE FROM sqlite_stat1; INSERT INTO sqlite_stat1 VALUES \
			('blocks', 'sqlite_autoindex_blocks_1', '12345 1');")?;
	}
	db.exec("COMMIT;")?;
	if w.opts.wal {
		// Header only; the last connection removes the WAL.
		db.exec("PRAGMA journal_mode=DELETE; PRAGMA journal_mode=WAL;")?;
	}
	Ok(())
}

pub fn read_db(path: &Path) -> Result<BTreeMap<i64, Vec<u8>>, String> {
	let db = Db::open(path.to_str().unwrap(), false)?;
	let st = db.prepare("SELECT pos, data FROM blocks")?;
	let mut out = BTreeMap::new();
	while st.step()? {
		let k = st.i64(0);
		if out.insert(k, st.blob(1)).is_some() {
			return Err(format!("duplicate row {}", k));
		}
	}
	Ok(out)
}

pub fn integrity(path: &Path) -> Result<(), String> {
	let db = Db::open(path.to_str().unwrap(), false)?;
	let r = db.text("PRAGMA integrity_check")?;
	if r == ["ok"] { Ok(()) } else { Err(format!("integrity_check: {:?}", r)) }
}

pub struct Out {
	pub code: Option<i32>,
	pub stdout: String,
	pub stderr: String,
}

impl Out {
	/// Reached its own normal end.
	pub fn done(&self) -> bool {
		self.stdout.lines().any(|l| l.trim() == "info: Done.")
	}
	pub fn panicked(&self) -> bool {
		self.stderr.contains("panicked at") || self.code.is_none()
			|| self.code == Some(101)
	}
	pub fn error_reported(&self) -> bool {
		self.panicked() || self.code != Some(0)
			|| self.stdout.contains("error:") || self.stderr.contains("error:")
	}
	pub fn brief(&self) -> String {
		let f = |s: &str| s.split(['\n', '\r']).filter(|l| !l.is_empty()
			&& !l.starts_with('[') && !l.starts_with("Querying"))
			.take(8).collect::<Vec<_>>().join(" | ");
		format!("exit={:?} stdout: {} stderr: {}", self.code, f(&self.stdout),
			f(&self.stderr))
	}
}

/// Running children: process ID, deadline, killed. A case with a child over its
/// deadline is not judged, but run again on its own.
pub static WATCH: Mutex<Vec<(u32, Instant, bool)>> = Mutex::new(vec![]);

extern "C" {
	fn kill(pid: i32, sig: i32) -> i32;
}

pub fn start_watchdog() {
	std::thread::spawn(|| loop {
		std::thread::sleep(Duration::from_millis(500));
		let now = Instant::now();
		for (pid, dl, killed) in WATCH.lock().unwrap().iter_mut() {
			if now > *dl {
				*killed = true;
				unsafe { kill(*pid as i32, 9); }
			}
		}
	});
}

/// Stands for the byte 0xFF in an argument.
pub const RAW: char = '\u{10FFFE}';

fn raw(a: &str) -> std::ffi::OsString {
	use std::os::unix::ffi::OsStringExt;
	let mut v = vec![];
	for c in a.chars() {
		if c == RAW { v.push(0xFF); }
		else { v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()); }
	}
	std::ffi::OsString::from_vec(v)
}

pub struct Env {
	pub bin: PathBuf,
	pub dir: PathBuf,
	pub timeout: Duration,
	/// A child had to be killed.
	pub hung: AtomicBool,
}

impl Env {
	pub fn path(&self, name: &str) -> PathBuf {
		self.dir.join(name)
	}

	pub fn run(&self, args: &[String], stdin: Option<&[u8]>,
		vars: &[(String, String)]) -> Out
	{
		let mut c = Command::new(&self.bin);
		c.args(args.iter().map(|a| raw(a))).current_dir(&self.dir).env_clear()
			.env("PATH", "/usr/bin:/bin").env("RUST_BACKTRACE", "0")
			.stdout(Stdio::piped()).stderr(Stdio::piped())
			.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
		for (k, v) in vars {
			// Output that cannot be written: a full disk, or nobody listening.
			if k == "VH_STDOUT" && v == "full" {
				c.stdout(std::fs::OpenOptions::new().write(true)
					.open("/dev/full").expect("/dev/full"));
			} else if k == "VH_STDOUT" {
				c.stdout(std::io::pipe().expect("pipe").1);
			}
			c.env(k, v);
		}
		let mut ch = c.spawn().expect("cannot start mapeditr");
		let pid = ch.id();
		WATCH.lock().unwrap().push((pid, Instant::now() + self.timeout,
			false));
		if let Some(data) = stdin {
			let mut si = ch.stdin.take().unwrap();
			let _ = si.write_all(data);
		}
		let mut se = ch.stderr.take().unwrap();
		let t = std::thread::spawn(move || {
			let mut v = vec![];
			let _ = se.read_to_end(&mut v);
			v
		});
		let mut so = vec![];
		if let Some(mut o) = ch.stdout.take() {
			let _ = o.read_to_end(&mut so);
		}
		let err = t.join().unwrap();
		let st = ch.wait().unwrap();
		WATCH.lock().unwrap().retain(|x| {
			if x.0 == pid && x.2 { self.hung.store(true, Ordering::SeqCst); }
			x.0 != pid
		});
		Out {
			code: st.code(),
			stdout: String::from_utf8_lossy(&so).into_owned(),
			stderr: String::from_utf8_lossy(&err).into_owned(),
		}
	}

	pub fn run_cmd(&self, map: &str, args: &[String]) -> Out {
		let mut a = vec!["-y".to_string(), map.to_string()];
		a.extend_from_slice(args);
		self.run(&a, None, &[])
	}
}
