//! What a run does besides editing mapblocks: to other files and settings, to
//! the memory it needs, and whether its timing matters.

use std::collections::BTreeMap;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::Path;
use crate::checks::*;
use crate::codec::{Block, EncOpts, Meta, Obj};
use crate::ffi::Db;
use crate::gen::{self, Cfg};
use crate::model::{self, Cmd, K};
use crate::src::{Rng, Src};
use crate::world::{self, DbOpts, Out, Row, St, World, key_of};

/// A file as it is found in a directory.
#[derive(Clone, PartialEq, Debug)]
struct Entry {
	kind: char,
	mode: u32,
	owner: (u32, u32),
	ino: u64,
	links: u64,
	time: (i64, i64),
	data: Vec<u8>,
}

fn tree(dir: &Path) -> BTreeMap<String, Entry> {
	fn rec(d: &Path, pre: &str, v: &mut BTreeMap<String, Entry>) {
		for e in std::fs::read_dir(d).unwrap() {
			let p = e.unwrap().path();
			let n = format!("{}{}", pre, p.file_name().unwrap().to_string_lossy());
			let m = std::fs::symlink_metadata(&p).unwrap();
			let t = m.file_type();
			let (kind, data) = if t.is_symlink() {
				('l', std::fs::read_link(&p).unwrap().to_string_lossy().into_owned()
					.into_bytes())
			} else if t.is_dir() { ('d', vec![]) }
			else { ('f', std::fs::read(&p).unwrap_or_default()) };
			v.insert(n.clone(), Entry { kind, mode: m.permissions().mode(),
				owner: (m.uid(), m.gid()), ino: m.ino(),
				links: if kind == 'd' { 0 } else { m.nlink() },
				time: if kind == 'd' { (0, 0) } else { (m.mtime(), m.mtime_nsec()) },
				data });
			if kind == 'd' { rec(&p, &format!("{}/", n), v); }
		}
	}
	let mut v = BTreeMap::new();
	rec(dir, "", &mut v);
	v
}

/// Everything in the database but its mapblocks.
pub fn settings(p: &str) -> Result<Vec<String>, String> {
	let db = Db::open(p, false)?;
	let mut v = db.text("SELECT coalesce(sql, name) FROM sqlite_master ORDER BY name")?;
	for p in ["page_size", "auto_vacuum", "encoding", "user_version",
		"application_id", "journal_mode", "default_cache_size"]
	{
		v.push(format!("{} = {}", p, db.text(&format!("PRAGMA {}", p))?.join(" ")));
	}
	let mut tables = db.text("SELECT name FROM sqlite_master WHERE type = 'table' \
		AND name != 'blocks' ORDER BY name")?;
	tables.retain(|t| t != "blocks");
	for t in tables {
		let cols = db.text(&format!("SELECT group_concat(quote(name), '') FROM \
			pragma_table_info('{}')", t))?;
		v.push(format!("{}: {}", t, cols.join("")));
		let names = db.text(&format!("SELECT name FROM pragma_table_info('{}')", t))?;
		let row = names.iter().map(|n| format!("quote(\"{}\")", n))
			.collect::<Vec<_>>().join(" || ',' || ");
		v.extend(db.text(&format!("SELECT {} FROM \"{}\" ORDER BY rowid", row, t))?);
	}
	Ok(v)
}

fn clean(d: &Path) {
	for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
		let p = e.path();
		let _ = match e.file_type() {
			Ok(t) if t.is_dir() => std::fs::remove_dir_all(&p),
			_ => std::fs::remove_file(&p),
		};
	}
}

const BYSTANDERS: [&str; 26] = ["world.mt", "map_meta.txt", "env_meta.txt",
	"players.sqlite", "auth.sqlite", "ipban.txt", "rollback.sqlite",
	"force_loaded.txt", "mod_storage.sqlite", "map.sqlite.bak", "map.sqlite~",
	"map.sqlite.tmp", "map.sqlite.old", "map.sqlite.new", "map.sqlite.orig",
	"map.bak", "map.tmp", "map.sqlite-vacuum", "map.sqlite-backup",
	"map.sqlite.lock", "backup.sqlite", "tmp.sqlite", "temp.sqlite", "map.db",
	"mapeditr.log", ".mapeditr"];

/// Nothing but mapblock rows of the map changes.
pub fn c30_only_blocks(s: &mut Src, ctx: &Ctx) -> Res {
	let cfg = Cfg { avg_blocks: 3, max_blocks: 8, bad: 8, big: 0, ..Cfg::default() };
	let (mut w, mut input, mut c) = if s.chance(1, 5) {
		let b = gen::base(s);
		(gen::world(s, &cfg, b), None, Cmd::new(K::Vacuum))
	} else { any_case(s, &cfg, &model::ALL[..11]) };
	w.opts.wal = s.chance(1, 5);
	w.opts.user = s.bool();
	w.opts.stats = s.chance(1, 4);
	w.opts.extra_table = s.bool();
	w.opts.auto_vacuum = s.chance(1, 5);
	if c.k == K::Vacuum && s.bool() { w.opts.junk = 1 + s.below(20) as u32; }
	if let Some(i) = &mut input { i.opts.wal = s.chance(1, 8); }
	let as_dir = s.bool();
	let link = s.weighted(&[5, 2, 2, 2]);
	let end = s.weighted(&[8, 1, 1, 1, 1]);
	let mode = *s.pick(&[0o644u32, 0o600, 0o664, 0o660, 0o640, 0o755]);
	let owner = *s.pick(&[0u32, 0, 1000, 65534]);
	let n_by = s.usize_to(6);
	let mut by: Vec<(String, u64)> = vec![];
	for _ in 0..n_by {
		let n = if s.chance(1, 4) { s.word_name() } else { None };
		let n = n.filter(|n| !n.contains(['/', ':', '\0']) && n.len() < 200
			&& !n.is_empty() && n != "." && n != ".." && n != MAP && n != "sub"
			&& n != "store");
		let n = n.unwrap_or_else(|| s.pick(&BYSTANDERS).to_string());
		if !by.iter().any(|b| b.0 == n) { by.push((n, s.seed())); }
	}
	let old = 1_000_000_000 + s.below(500_000_000);
	let pl = model::plan(&w, input.as_ref(), &c);
	let labels = vec![c.k.name(), ["plain file", "map is a symbolic link",
		"map has a second name", "world is a symbolic link"][link],
		["run", "declined", "invalid arguments", "confirmed", "missing input map"]
		[end], if w.opts.wal { "WAL map" } else { "rollback journal" }];
	let mut show = String::new();
	let mut nontrivial = true;
	// Names of files which a first run has made use of, to exist in a second.
	let mut taken: Vec<String> = vec![];
	let touched = std::cell::RefCell::new(vec![]);
	let list = ctx.env.dir.with_extension("touched");
	let mut once = |taken: &[String]| -> Result<(), String> {
		let d = |n: &str| ctx.env.path(n);
		for n in ["world", "world/sub", "home", "tmp", "store", "inp"] {
			std::fs::create_dir(d(n)).unwrap();
		}
		let real = if link == 1 { d("store/real.db") } else { d("world/map.sqlite") };
		world::write_db(&real, &w)?;
		match link {
			1 => std::os::unix::fs::symlink("../store/real.db", d("world/map.sqlite"))
				.unwrap(),
			2 => std::fs::hard_link(&real, d("store/copy.sqlite")).unwrap(),
			3 => std::os::unix::fs::symlink("world", d("wl")).unwrap(),
			_ => (),
		}
		std::fs::set_permissions(&real, std::fs::Permissions::from_mode(mode)).unwrap();
		let _ = std::os::unix::fs::chown(&real, Some(owner), Some(owner));
		for (n, seed) in &by {
			for place in ["world", "store", "home", "inp", "."] {
				let mut r = Rng::new(*seed);
				let p = d(place).join(n);
				if p.exists() || place != "world" && r.below(2) == 0 { continue; }
				if n.ends_with("sqlite") && r.below(2) == 0 {
					// Another map
					std::fs::copy(&real, &p).unwrap();
				} else {
					std::fs::write(&p, gen::rand_bytes(*seed, r.below(300) as usize))
						.unwrap();
				}
			}
		}
		if let Some(i) = &input {
			world::write_db(&d("inp/map.sqlite"), i)?;
			c.input_map = Some(if as_dir { "inp/map.sqlite" } else { "inp" }.into());
		}
		if end == 4 && c.k == K::Overlay { c.input_map = Some("inp/none".into()); }
		for t in taken {
			let p = d(t);
			if let Some(x) = p.parent() { let _ = std::fs::create_dir_all(x); }
			if std::fs::symlink_metadata(&p).is_err() {
				let _ = std::fs::write(&p, b"not a file of mapeditr");
			}
		}
		// Nothing can be taken for new.
		let back = std::time::UNIX_EPOCH + std::time::Duration::from_secs(old);
		for (n, e) in tree(&ctx.env.dir) {
			if e.kind != 'f' { continue; }
			if let Ok(f) = std::fs::File::options().append(true).open(d(&n)) {
				let _ = f.set_modified(back);
			}
		}
		let set0 = settings(real.to_str().unwrap())?;
		let before = tree(&ctx.env.dir);
		let wd = if link == 3 { "wl" } else { "world" };
		let mut a = vec![if as_dir { wd.to_string() }
			else { format!("{}/map.sqlite", wd) }];
		a.extend(c.args());
		let mut answer = None;
		match end {
			0 | 4 => a.insert(0, "-y".into()),
			1 => answer = Some(&b"n\n"[..]),
			2 => a.extend(["--p1".to_string(), "x".to_string(), "-y".to_string()]),
			_ => answer = Some(&b"y\n"[..]),
		}
		let v = |n: &str, p: &str| (n.to_string(), d(p).to_str().unwrap().to_string());
		show = format!("mapeditr {}", a.join(" "));
		let out = ctx.env.run(&a, answer, &[v("HOME", "home"), v("TMPDIR", "tmp"),
			v("SQLITE_TMPDIR", "tmp"), v("XDG_CONFIG_HOME", "home"),
			v("XDG_CACHE_HOME", "home"), v("XDG_DATA_HOME", "home"),
			("VH_TOUCH".into(), list.to_str().unwrap().into()),
			("LD_PRELOAD".into(), ctx.shim.to_str().unwrap().into())]);
		let text = std::fs::read(&list).unwrap_or_default();
		let _ = std::fs::remove_file(&list);
		for l in String::from_utf8_lossy(&text).lines() {
			let p = Path::new(l);
			let n = p.file_name().unwrap_or_default().to_string_lossy();
			let q = match p.parent().and_then(|x| x.canonicalize().ok()) {
				Some(q) => q.join(&*n),
				None => continue,
			};
			if q.starts_with("/dev") && !q.starts_with("/dev/shm")
				|| n.starts_with("etilqs_") { continue; }
			match q.strip_prefix(&ctx.env.dir) {
				Err(_) => return Err(format!("`{}` created or replaced {}", show, l)),
				Ok(r) => {
					let r = r.to_string_lossy().into_owned();
					let of = |m: &str| r.strip_prefix(m).map_or(false, |x|
						["", "-journal", "-wal", "-shm"].contains(&x));
					if !of(real.strip_prefix(&ctx.env.dir).unwrap().to_str().unwrap())
						&& !of("inp/map.sqlite") { touched.borrow_mut().push(r); }
				}
			}
		}
		let runs = end == 0 || end == 3 || end == 4 && c.k != K::Overlay;
		nontrivial = !runs || pl.changed > 0 || c.k == K::Vacuum;
		if out.panicked() {
			return Err(format!("`{}` crashed: {}", show, out.brief()));
		}
		if runs && (!out.done() || out.error_reported()) {
			return Err(format!("`{}` failed: {}", show, out.brief()));
		}
		let after = tree(&ctx.env.dir);
		let rel = real.strip_prefix(&ctx.env.dir).unwrap().to_str().unwrap();
		let main: Vec<&str> = if link == 2 { vec![rel, "store/copy.sqlite"] }
			else { vec![rel] };
		for (n, e) in &before {
			let x = match after.get(n) {
				None => return Err(format!("`{}` removed {}", show, n)),
				Some(x) => x,
			};
			let what = if e.kind != x.kind || e.kind == 'l' && e.data != x.data
				|| e.ino != x.ino { "replaced" }
			else if e.mode != x.mode { "changed the permissions of" }
			else if e.owner != x.owner { "changed the owner of" }
			else if e.links != x.links { "changed the names of" }
			else if main.contains(&&n[..]) && runs { continue }
			else if e.data != x.data { "modified" }
			else if e.time != x.time { "wrote to" }
			else { continue };
			return Err(format!("`{}` {} {}", show, what, n));
		}
		for n in after.keys() {
			let side = |m: &str, any: bool| n.strip_prefix(m).map_or(false,
				|x| x == "-shm" || x == "-wal" && (any || after[n].data.is_empty()));
			if before.contains_key(n) || w.opts.wal && side(rel, true)
				|| input.as_ref().map_or(false, |i| i.opts.wal)
					&& side("inp/map.sqlite", false) { continue; }
			return Err(format!("`{}` left {} behind", show, n));
		}
		let set1 = settings(real.to_str().unwrap())?;
		if set0 != set1 {
			let x = set0.iter().zip(&set1).find(|x| x.0 != x.1);
			return Err(format!("`{}` changed what else is in the database: {:?}", show,
				x));
		}
		let rows = world::read_db(&real)?;
		if runs {
			model::verify(&w, &pl, &rows).map_err(|e| format!("`{}`: {}", show, e))?;
		} else if rows.len() != w.rows.len()
			|| w.rows.iter().any(|(k, r)| rows.get(k) != Some(&r.bytes))
		{
			return Err(format!("`{}` changed mapblocks", show));
		}
		Ok(())
	};
	let mut fail = once(&taken).err();
	if fail.is_none() && !touched.borrow().is_empty() {
		// The same again, with these names taken.
		taken.append(&mut touched.borrow_mut());
		clean(&ctx.env.dir);
		fail = once(&taken).err();
	}
	Res {
		fail, nontrivial, labels,
		desc: format!("{}  ON  {}  WITH  {}", show, gen::describe(&w), by.iter()
			.map(|b| b.0.as_str()).collect::<Vec<_>>().join(", ")),
		hash: hash_case(&w, input.as_ref(), &[&c]) ^ (end + 8 * link) as u64,
		..Res::default()
	}
}

/// Blocks which are quick to decode and encode, but do not get small.
pub fn bulky(r: &mut Rng, version: u8) -> Block {
	let mut nodes = vec![0u16; 4096];
	for i in [0usize, 17, 4095] { nodes[i] = 1 + (r.below(2) as u16); }
	let mut meta = BTreeMap::new();
	for i in [5u16, 17] {
		meta.insert(i, Meta {
			vars: [(b"infotext".to_vec(), (b"text".to_vec(), false))].into_iter()
				.collect(),
			inv: b"List main 2\nWidth 0\nItem m:i 5\nEmpty\nEndInventoryList\n\
				EndInventory\n".to_vec() });
	}
	let n = 1800 + r.below(1200) as usize;
	Block { version, flags: 0, lighting: 0xFFFF, timestamp: r.next() as u32,
		names: vec![(0, b"air".to_vec()), (1, b"m:a".to_vec()),
			(2, b"m:b".to_vec())], nodes, p1: vec![0; 4096], p2: vec![0; 4096],
		meta, objs: vec![
			Obj { ty: 7, pos: [0; 3], data: gen::rand_bytes(r.next(), n) },
			Obj { ty: 7, pos: [170_000; 3], data: gen::rand_bytes(r.next(), n / 4) }],
		timers: vec![(17, 1000, 0)] }
}

/// The memory needed does not grow with the map.
pub fn c31_memory(s: &mut Src, ctx: &Ctx) -> Res {
	let k = *s.pick(&[K::Clone, K::Clone, K::Overlay, K::Overlay, K::Fill,
		K::ReplaceNodes, K::SetParam2, K::DeleteMeta, K::SetMetaVar,
		K::ReplaceInInv, K::DeleteObjects, K::DeleteTimers, K::DeleteBlocks,
		K::Vacuum]);
	let n1 = 2600 + s.below(600) as i64;
	let n2 = n1 * 3 + s.below(1000) as i64;
	let vers: Vec<u8> = match s.below(3) {
		0 => vec![29], 1 => vec![28], _ => vec![25, 27, 28, 29] };
	let shape = s.below(4);
	let bad = *s.pick(&[0u64, 0, 10, 50]);
	let mut r = Rng::new(s.seed());
	let pool: Vec<Row> = (0..48).map(|_| {
		if r.below(100) < bad {
			let n = r.below(3000) as usize;
			let mut b = gen::rand_bytes(r.next(), 1 + n);
			b[0] = *[28u8, 29, 24, 77].get(r.below(4) as usize).unwrap();
			return Row { bytes: b, st: St::Bad };
		}
		let v = vers[r.below(vers.len() as u64) as usize];
		let mut b = bulky(&mut r, v);
		if bad > 0 && r.below(8) == 0 { b.flags |= 8; }
		Row { bytes: b.encode(&EncOpts { level: 1, ..EncOpts::default() }),
			st: St::Good(Box::new(b)) }
	}).collect();
	let dims = |n: i64| match shape {
		0 => [14, 14, n / 196 + 1], 1 => [n / 49 + 1, 7, 7], 2 => [60, n / 60 + 1, 1],
		_ => [40, 2, n / 80 + 1] };
	let mk = |n: i64| {
		let d = dims(n);
		let mut w = World { rows: BTreeMap::new(), opts: DbOpts::default() };
		for z in 0..d[2] { for y in 0..d[1] { for x in 0..d[0] {
			let i = w.rows.len() * 7 % pool.len();
			w.rows.insert(key_of([x, y, z]), pool[i].clone());
		} } }
		w
	};
	let mut c = Cmd::new(k);
	match k {
		K::Clone => c.offset = Some(*s.pick(&[[16i64, 0, 0], [0, 0, -16], [5, 7, -9],
			[0, 3, 0], [-48, 0, 32]])),
		K::Overlay => {
			c.input_map = Some(IN.into());
			if s.bool() { c.offset = Some(*s.pick(&[[16i64, 0, 0], [5, 7, -9],
				[0, 3, 0], [0, 0, -32]])); }
		},
		K::Fill => c.new_node = Some("m:c".into()),
		K::ReplaceNodes => {
			c.node = Some(s.pick(&["m:a", "m:none"]).to_string());
			c.new_node = Some("m:c".into());
		},
		K::SetParam2 => { c.node = Some("m:a".into()); c.param2 = Some(3); },
		K::SetMetaVar => {
			c.key = Some("infotext".into());
			c.value = Some("other".into());
		},
		K::ReplaceInInv => {
			c.item = Some("m:i".into());
			c.new_item = Some("m:j".into());
		},
		_ => (),
	}
	// Less usual options
	match k {
		K::ReplaceInInv if s.bool() => c.delete_meta = true,
		K::ReplaceInInv | K::SetMetaVar if s.bool() => {
			c.delete = true;
			c.value = None;
			c.new_item = None;
		},
		_ => (),
	}
	if matches!(k, K::DeleteMeta | K::SetMetaVar | K::DeleteTimers | K::ReplaceInInv)
		&& s.chance(1, 3)
	{
		let n = s.pick(&["m:a", "m:b", "m:none"]).to_string();
		if matches!(k, K::ReplaceInInv | K::SetMetaVar) { c.nodes = vec![n]; }
		else { c.node = Some(n); }
	}
	if k == K::DeleteObjects {
		match s.below(3) {
			0 => c.items = Some(vec![]),
			1 => c.obj = Some("m:o".into()),
			_ => (),
		}
	}
	let area = matches!(k, K::Fill | K::Clone) || k != K::Vacuum && s.bool()
		|| k == K::DeleteBlocks;
	// A small area; all but the area
	let small = area && c.offset.is_none() && s.chance(1, 4);
	if area && k != K::Clone && c.offset.is_none() && s.chance(2, 5) {
		c.invert = true;
	}
	let cut = s.range(0, 9);
	let mut labels = vec![k.name(), if area { "area" } else { "whole map" }];
	if c.offset.is_some() { labels.push("offset"); }
	if bad > 0 { labels.push("unreadable rows"); }
	if c.invert { labels.push("inverted"); }
	if small { labels.push("small area"); }
	let run = |n: i64, c: &mut Cmd| -> Result<(i64, i64), String> {
		let w = mk(n);
		let d = dims(n);
		if area {
			c.p1 = Some([0; 3]);
			c.p2 = Some([0, 1, 2].map(|i| d[i] * 16 - 1 - if i == 2 { cut } else { 0 }));
			if small { c.p2 = c.p2.map(|p| [p[0] / 4 + 1, p[1] / 2, p[2] / 3 + 1]); }
		}
		setup(ctx, &w, if k == K::Overlay { Some(&w) } else { None });
		let hwm = ctx.env.path("hwm");
		let _ = std::fs::remove_file(&hwm);
		let mut a = vec!["-y".to_string(), MAP.to_string()];
		a.extend(c.args());
		let v = |n: &str, p: &str| (n.to_string(), p.to_string());
		let out = ctx.env.run(&a, None, &[v("LD_PRELOAD", ctx.shim.to_str().unwrap()),
			v("VH_HWM", hwm.to_str().unwrap())]);
		if out.panicked() || !out.done() || out.error_reported() {
			return Err(format!("`{}` failed: {}", c.show(), out.brief()));
		}
		let t = std::fs::read_to_string(&hwm).map_err(|e| format!("no figure: {}", e))?;
		let kb = t.split_whitespace().next().and_then(|v| v.parse().ok())
			.ok_or("no figure")?;
		Ok((w.rows.len() as i64, kb))
	};
	let mut desc = String::new();
	let fail = (|| -> Result<(), String> {
		let (r1, m1) = run(n1, &mut c)?;
		let (r2, m2) = run(n2, &mut c)?;
		desc = format!("{}  ON  {} blocks: {} kB, {} blocks: {} kB", c.show(), r1, m1,
			r2, m2);
		if std::env::var_os("VH_MEM").is_some() { eprintln!("{}", desc); }
		// The cache is filled with blocks of different sizes.
		let slack = if c.offset.is_some() { 8192 } else { 3072 };
		if m2 - m1 > slack + (r2 - r1) * 256 / 1024 {
			return Err(format!("`{}` needs {} kB for {} blocks, {} kB for {} blocks",
				c.show(), m1, r1, m2, r2));
		}
		Ok(())
	})().err();
	Res {
		fail,
		nontrivial: true,
		labels,
		desc,
		hash: hash_bytes(n1 as u64 + shape, c.args().join("\0").as_bytes()),
		..Res::default()
	}
}

/// Messages in order, and the course of the progress display.
fn output(out: &Out) -> (Vec<String>, Vec<u64>, Vec<f64>, Vec<u64>) {
	let (mut log, mut found, mut done, mut time) = (vec![], vec![], vec![], vec![]);
	let text = out.stdout.replace("Proceed? (Y/n): ", "Proceed?\n");
	for l in text.split(['\n', '\r']) {
		let l = l.trim_end();
		if let Some(n) = l.strip_prefix("Querying mapblocks... ") {
			if let Some(n) = n.split(' ').next().and_then(|n| n.parse().ok()) {
				found.push(n);
				continue;
			}
		}
		if let Some(h) = l.strip_suffix(" elapsed")
			.or_else(|| l.split(" elapsed |").next().filter(|h| h.len() < l.len()))
		{
			let v: Vec<Option<u64>> = h.split(' ').last().unwrap().split(':')
				.map(|n| n.parse().ok()).collect();
			if v.len() > 1 && v.iter().all(|n| n.is_some()) {
				time.push(v.iter().fold(0, |a, n| a * 60 + n.unwrap()));
			}
		}
		if l.starts_with('[') {
			let p = l.split('%').next().and_then(|p| p.split(' ').last())
				.and_then(|p| p.parse().ok());
			if let Some(p) = p { done.push(p); }
			continue;
		}
		if l.is_empty() || l.starts_with("Processing...") { continue; }
		log.push(l.to_string());
	}
	(log, found, done, time)
}

/// How long anything takes makes no difference.
pub fn c32_timing(s: &mut Src, ctx: &Ctx) -> Res {
	let big = s.chance(1, 6);
	let cfg = Cfg { avg_blocks: if big { 40 } else { 5 },
		max_blocks: if big { 90 } else { 14 }, bad: 8, ..Cfg::default() };
	let (mut w, input, c) = if s.chance(1, 10) {
		let b = gen::base(s);
		(gen::world(s, &cfg, b), None, Cmd::new(K::Vacuum))
	} else { any_case(s, &cfg, &model::ALL[..11]) };
	let mut rows = w.rows.len() as u64;
	if s.chance(1, 8) {
		// More rows than are counted at once.
		let n = 1100 + s.below(2500);
		let mut r = Rng::new(s.seed());
		for i in 0..n as i64 {
			let p = [i % 60 - 30, 30, i / 60 - 30];
			let b = [24u8, 0, r.below(9) as u8];
			w.rows.entry(key_of(p)).or_insert(Row { bytes: b.to_vec(), st: St::Bad });
		}
		rows = w.rows.len() as u64;
	}
	w.opts.wal = s.chance(1, 8);
	let warp = *s.pick(&[1u64, 100, 1000, 20_000, 200_000, 1_000_000, 50_000_000]);
	let (pm, us) = *s.pick(&[(0u64, 0u64), (5, 20_000), (100, 500), (1000, 60),
		(30, 3000), (300, 200)]);
	let seed = s.seed();
	let ask = s.weighted(&[3, 1, 1]);
	let stdin_us = if ask > 0 { *s.pick(&[0u64, 3000, 30_000, 60_000]) } else { 0 };
	let pl = model::plan(&w, input.as_ref(), &c);
	let mut updates = 0;
	let mut show = String::new();
	let fail = (|| -> Result<(), String> {
		let mut a = vec![MAP.to_string()];
		a.extend(c.args());
		if ask == 0 { a.insert(0, "-y".into()); }
		let answer = [None, Some(&b"y\n"[..]), Some(&b"n\n"[..])][ask];
		setup(ctx, &w, input.as_ref());
		let out0 = ctx.env.run(&a, answer, &[]);
		setup(ctx, &w, input.as_ref());
		let v = |n: &str, p: String| (n.to_string(), p);
		let mut vars = vec![v("LD_PRELOAD", ctx.shim.to_str().unwrap().into()),
			v("VH_MODE", "1".into()), v("VH_DIR", ctx.env.dir.to_str().unwrap().into()),
			v("VH_DELAY", format!("{}:{}:{}", pm, us, seed % 1_000_000_007))];
		if warp > 1 { vars.push(v("VH_WARP", warp.to_string())); }
		if stdin_us > 0 { vars.push(v("VH_SLOW_STDIN", stdin_us.to_string())); }
		let out = ctx.env.run(&a, answer, &vars);
		show = format!("mapeditr {} with the clock {} times as fast, {} in 1000 \
			operations delayed by up to {} us, input by {} us", a.join(" "), warp, pm,
			us, stdin_us);
		let err = |e: String| Err(format!("{}: {}", show, e));
		if out.panicked() { return err(format!("crashed: {}", out.brief())); }
		if ask < 2 && (!out.done() || out.error_reported()) {
			return err(format!("failed: {}", out.brief()));
		}
		let l0 = output(&out0).0;
		let (l1, found, done, time) = output(&out);
		updates = found.len() + done.len();
		if l0 != l1 || out0.code != out.code {
			return err(format!("said {:?} (exit {:?}) instead of {:?} (exit {:?})", l1,
				out.code, l0, out0.code));
		}
		let limit = rows.max(input.as_ref().map_or(0, |i| i.rows.len() as u64));
		if found.windows(2).any(|x| x[0] > x[1])
			|| found.last().map_or(false, |&n| n > limit)
		{
			return err(format!("blocks found: {:?}, of {}", found, limit));
		}
		if done.windows(2).any(|x| x[0] > x[1])
			|| done.last().map_or(false, |&p| p > 100.0)
		{
			return err(format!("progress: {:?}", done));
		}
		if time.windows(2).any(|x| x[0] > x[1]) {
			return err(format!("seconds elapsed: {:?}", time));
		}
		let after = world::read_db(&ctx.env.path(MAP))?;
		if ask < 2 {
			model::verify(&w, &pl, &after).or_else(err)
		} else if after.len() != w.rows.len()
			|| w.rows.iter().any(|(k, r)| after.get(k) != Some(&r.bytes))
		{
			err("not confirmed, but changed the map".into())
		} else { Ok(()) }
	})().err();
	Res {
		fail,
		nontrivial: pl.changed > 0 || c.k == K::Vacuum,
		labels: vec![c.k.name(), match warp { 1 => "true clock",
			2..=20_000 => "fast clock", _ => "very fast clock" },
			if pm > 0 { "delays" } else { "no delays" },
			["no question", "confirmed", "declined"][ask],
			if updates > 12 { "many progress updates" } else { "few progress updates" }],
		desc: format!("{}  ON  {} rows", show, rows),
		hash: hash_case(&w, input.as_ref(), &[&c]) ^ seed,
		..Res::default()
	}
}
