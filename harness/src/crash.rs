//! Crashes and I/O faults at chosen file operations, using the LD_PRELOAD shim.

use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use crate::checks::*;
use crate::codec::EncOpts;
use crate::gen::{self, Cfg};
use crate::model::{self, Cmd, K, Plan};
use crate::src::{Rng, Src, mix};
use crate::world::{self, Out, Row, St, World, key_of};

const C_WRITE: u32 = 1;
const C_TRUNC: u32 = 2;
const C_SYNC: u32 = 4;
const C_UNLINK: u32 = 8;
const C_CREATE: u32 = 16;
const C_READ: u32 = 32;
const C_LOCK: u32 = 64;
const CHANGES: u32 = C_WRITE | C_TRUNC | C_SYNC | C_UNLINK | C_CREATE;

#[derive(Clone)]
enum Op {
	Write(String, u64, Vec<u8>),
	Trunc(String, u64),
	Sync(String),
	Unlink(String),
	Create(String),
	Other,
}

pub type Files = BTreeMap<String, Vec<u8>>;

fn parse_log(v: &[u8]) -> (Vec<Op>, u64) {
	let (mut ops, mut n, mut p) = (vec![], 0, 0);
	while p + 5 <= v.len() {
		let kind = v[p];
		let pl = u32::from_le_bytes(v[p + 1..p + 5].try_into().unwrap()) as usize;
		p += 5;
		let path = String::from_utf8_lossy(&v[p..p + pl]).into_owned();
		p += pl;
		let a = u64::from_le_bytes(v[p..p + 8].try_into().unwrap());
		let len = u64::from_le_bytes(v[p + 8..p + 16].try_into().unwrap());
		p += 16;
		match kind {
			b'W' => {
				ops.push(Op::Write(path, a, v[p..p + len as usize].to_vec()));
				p += len as usize;
			},
			b'T' => ops.push(Op::Trunc(path, a)),
			b'S' => ops.push(Op::Sync(path)),
			b'U' => ops.push(Op::Unlink(path)),
			b'C' => ops.push(Op::Create(path)),
			b'N' => n = a,
			_ => ops.push(Op::Other),
		}
	}
	(ops, n)
}

fn put(f: &mut Vec<u8>, off: u64, d: &[u8]) {
	let (s, e) = (off as usize, off as usize + d.len());
	if f.len() < e { f.resize(e, 0); }
	f[s..e].copy_from_slice(d);
}

fn apply(fs: &mut Files, op: &Op) {
	match op {
		Op::Write(p, off, d) => put(fs.entry(p.clone()).or_default(), *off, d),
		Op::Trunc(p, n) => fs.entry(p.clone()).or_default().resize(*n as usize, 0),
		Op::Unlink(p) => { fs.remove(p); },
		Op::Create(p) => { fs.insert(p.clone(), vec![]); },
		_ => (),
	}
}

/// File system with unsynchronised state, for power loss.
struct Disk {
	inodes: Vec<(Vec<u8>, Vec<Op>)>, // durable content, pending
	durable: HashMap<String, usize>,
	names: HashMap<String, usize>,
	pending: Vec<(String, Option<usize>)>,
}

impl Disk {
	fn new(fs: &Files) -> Self {
		let mut d = Disk { inodes: vec![], durable: HashMap::new(),
			names: HashMap::new(), pending: vec![] };
		for (n, v) in fs {
			d.inodes.push((v.clone(), vec![]));
			d.durable.insert(n.clone(), d.inodes.len() - 1);
		}
		d.names = d.durable.clone();
		d
	}
	fn apply(&mut self, op: &Op) {
		match op {
			Op::Write(p, ..) | Op::Trunc(p, _) => if let Some(&i) = self.names.get(p) {
				self.inodes[i].1.push(op.clone());
			},
			Op::Create(p) => {
				self.inodes.push((vec![], vec![]));
				let i = self.inodes.len() - 1;
				self.names.insert(p.clone(), i);
				self.pending.push((p.clone(), Some(i)));
			},
			Op::Unlink(p) => {
				self.names.remove(p);
				self.pending.push((p.clone(), None));
			},
			Op::Sync(p) if p == "." => {
				self.pending.clear();
				self.durable = self.names.clone();
			},
			Op::Sync(p) => if let Some(&i) = self.names.get(p) {
				let (data, pend) = &mut self.inodes[i];
				for o in pend.drain(..) { Self::on_inode(data, &o); }
			},
			Op::Other => (),
		}
	}
	fn on_inode(data: &mut Vec<u8>, o: &Op) {
		match o {
			Op::Write(_, off, d) => put(data, *off, d),
			Op::Trunc(_, n) => data.resize(*n as usize, 0),
			_ => (),
		}
	}
	/// One possible content after the power failed.
	fn crash(&self, r: &mut Rng) -> Files {
		let mut names = self.durable.clone();
		let keep = r.below(self.pending.len() as u64 + 1) as usize;
		for (n, i) in &self.pending[..keep] {
			match i {
				Some(i) => { names.insert(n.clone(), *i); },
				None => { names.remove(n); },
			}
		}
		let style = r.below(4);
		names.into_iter().map(|(n, i)| {
			let (data, pend) = &self.inodes[i];
			let mut data = data.clone();
			for o in pend {
				let keep = match style { 0 => false, 1 => r.below(2) == 0,
					2 => r.below(8) != 0, _ => r.below(8) == 0 };
				match o {
					Op::Write(p, off, d) if keep && r.below(4) == 0 => {
						// Torn at a sector boundary
						let first = 512 - *off as usize % 512;
						let n = (first + 512 * r.below(9) as usize).min(d.len());
						Self::on_inode(&mut data, &Op::Write(p.clone(), *off,
							d[..n].to_vec()));
					},
					o if keep => Self::on_inode(&mut data, o),
					_ => (),
				}
			}
			(n, data)
		}).collect()
	}
}

pub const SUB: &str = "m";

pub fn load(dir: &Path) -> Files {
	std::fs::read_dir(dir).unwrap().map(|e| {
		let e = e.unwrap();
		(e.file_name().to_string_lossy().into_owned(),
			std::fs::read(e.path()).unwrap())
	}).collect()
}

pub fn store(dir: &Path, fs: &Files) {
	let _ = std::fs::remove_dir_all(dir);
	std::fs::create_dir_all(dir).unwrap();
	for (n, d) in fs {
		std::fs::write(dir.join(n), d).unwrap();
	}
}

struct Case {
	w: World,
	input: World,
	c: Cmd,
	plan: Plan,
	files: Files,
	spill: bool,
	/// More than a thousand blocks are changed.
	many: bool,
}

/// Fill up a world with small blocks, using few distinct contents.
fn add_many(s: &mut Src, w: &mut World, cfg: &Cfg, b: crate::world::V3, n: i64) {
	let c = Cfg { meta: 0, objs: 0, timers: 0, big: 0, bad: 0, odd: 0, ungen: 0,
		..cfg.clone() };
	let kinds: Vec<Row> = (0..4u16).map(|i| {
		let mut blk = gen::block(s, &c, b);
		blk.names = vec![(0, b"m:a".to_vec()), (1, b"m:b".to_vec())];
		blk.nodes = vec![0; 4096];
		blk.nodes[i as usize * 1000] = 1;
		blk.p1 = vec![0; 4096];
		blk.p2 = vec![i as u8; 4096];
		Row { bytes: blk.encode(&EncOpts::default()), st: St::Good(Box::new(blk)) }
	}).collect();
	let lo = b.map(|v| (v - 7).max(-1930).min(1930 - 20));
	for i in 0..n {
		let p = [lo[0] + i % 13, lo[1] + i / 13 % 13, lo[2] + i / 169];
		w.rows.insert(key_of(p), kinds[(i * 7 / 3 % 4) as usize].clone());
	}
}

fn case(s: &mut Src, ctx: &Ctx, wal: bool) -> Case {
	let mut cfg = Cfg { big: 0, max_blocks: 14, avg_blocks: 5, ungen: 0,
		meta: 50, ..Cfg::default() };
	let b = gen::base(s);
	let mut w = gen::world(s, &cfg, b);
	let spill = s.chance(1, if ctx.thorough { 5 } else { 10 });
	let many = !spill && s.chance(1, 8);
	let n_many = if many { 1040 + s.below(1400) as i64 } else { 0 };
	if spill {
		cfg.meta = 0; cfg.objs = 0; cfg.timers = 0; cfg.odd = 0;
		let mut blk = gen::block(s, &cfg, b);
		let seed = s.seed();
		for i in 0..350u64 {
			blk.p1 = gen::rand_bytes(seed + i, 4096);
			blk.p2 = gen::rand_bytes(seed + i + 5000, 4096);
			let p = [b[0] - 10 + (i % 20) as i64, b[1], b[2] - 9 + (i / 20) as i64];
			if p.iter().any(|v| v.abs() > 1937) { continue; }
			w.rows.insert(key_of(p), Row { bytes: blk.encode(&EncOpts::default()),
				st: St::Good(Box::new(blk.clone())) });
		}
	}
	let mut input = gen::input_world(s, &Cfg { max_blocks: 8, ..cfg.clone() },
		&if spill { World::default() } else { w.clone() }, b);
	let k = if many {
		*s.pick(&[K::Fill, K::SetParam2, K::ReplaceNodes, K::Clone, K::Overlay,
			K::Overlay, K::DeleteBlocks, K::DeleteBlocks])
	} else if spill { *s.pick(&[K::Fill, K::DeleteBlocks, K::Clone, K::Vacuum]) }
		else { *s.pick(&model::ALL) };
	let mut c = gen::cmd(s, k, &w, b);
	if many {
		if k != K::Overlay || s.bool() { add_many(s, &mut w, &cfg, b, n_many); }
		if k == K::Overlay { add_many(s, &mut input, &cfg, b, n_many); }
		c.node = c.node.map(|_| if k == K::SetParam2 { "m:a" } else { "m:b" }.into());
	}
	if (spill || many) && k != K::Vacuum {
		let near = |v: i64, o: i64| ((v + o) * 16).max(-31000).min(31000);
		c.p1 = Some(b.map(|v| near(v, -30)));
		c.p2 = Some(b.map(|v| near(v, 30)));
		c.invert = false;
	}
	if k == K::Overlay {
		c.input_map = Some(format!("{}/{}", SUB, IN));
		if !c.invert && s.bool() { c.offset = Some(gen::offset(s)); }
	}
	if !gen::dst_ok(&c) {
		c.offset = if k == K::Clone { Some([0, 16, 0]) } else { None };
		if !gen::dst_ok(&c) { c.offset = Some([0, -16, 0]); }
	}
	let plan = model::plan(&w, if k == K::Overlay { Some(&input) } else { None }, &c);
	if k == K::Vacuum { w.opts.junk = 1 + s.below(30) as u32; }
	w.opts.wal &= wal;
	input.opts.wal &= wal;
	let dir = ctx.env.path(SUB);
	let _ = std::fs::remove_dir_all(&dir);
	std::fs::create_dir_all(&dir).unwrap();
	world::write_db(&dir.join(MAP), &w).expect("cannot write map");
	world::write_db(&dir.join(IN), &input).expect("cannot write map");
	let files = load(&dir);
	Case { w, input, c, plan, files, spill, many }
}

pub fn run_shim(ctx: &Ctx, c: &Cmd, vars: &[(&str, String)]) -> Out {
	let mut v: Vec<(String, String)> = vec![
		("LD_PRELOAD".into(), ctx.shim.to_str().unwrap().into()),
		("VH_DIR".into(), ctx.env.path(SUB).to_str().unwrap().into()),
		("SQLITE_TMPDIR".into(), ctx.env.dir.to_str().unwrap().into()),
		("TMPDIR".into(), ctx.env.dir.to_str().unwrap().into()),
	];
	v.extend(vars.iter().map(|(a, b)| (a.to_string(), b.clone())));
	let mut a = vec!["-y".to_string(), format!("{}/{}", SUB, MAP)];
	a.extend(c.args());
	ctx.env.run(&a, None, &v)
}

pub fn count_ops(ctx: &Ctx, c: &Cmd, mask: u32) -> u64 { logged(ctx, c, mask).2 }

fn logged(ctx: &Ctx, c: &Cmd, mask: u32) -> (Out, Vec<Op>, u64) {
	let log = ctx.env.path("ops.log");
	let _ = std::fs::remove_file(&log);
	let out = run_shim(ctx, c, &[("VH_MODE", "1".into()),
		("VH_MASK", mask.to_string()),
		("VH_LOG", log.to_str().unwrap().into())]);
	let (ops, n) = parse_log(&std::fs::read(&log).unwrap_or_default());
	let _ = std::fs::remove_file(&log);
	(out, ops, n)
}

/// Open the database the way any later user would; it must be in the state
/// before or after the command. Returns true for the latter.
fn old_or_new(dir: &Path, cs: &Case) -> Result<(bool, Rows), String> {
	let p = dir.join(MAP);
	let rows = world::read_db(&p).map_err(|e| format!("map unreadable: {}", e))?;
	world::integrity(&p)?;
	let same = rows.len() == cs.w.rows.len() && rows.iter()
		.all(|(k, v)| cs.w.rows.get(k).map_or(false, |r| r.bytes == *v));
	if same { return Ok((false, rows)); }
	match model::verify(&cs.w, &cs.plan, &rows) {
		Ok(()) => Ok((true, rows)),
		Err(e) => {
			let n = rows.iter().filter(|(k, v)| cs.w.rows.get(k)
				.map_or(true, |r| r.bytes != **v)).count();
			Err(format!("map is in neither the old nor the new state ({} of {} \
				rows differ from the old one; from the new one: {})", n,
				cs.w.rows.len(), e))
		},
	}
}

pub fn c21_crash(s: &mut Src, ctx: &Ctx) -> Res {
	let cs = case(s, ctx, false);
	let dir = ctx.env.path(SUB);
	let rec = ctx.env.path("rec");
	let mut labels = vec![cs.c.k.name()];
	if cs.spill { labels.push("larger than the page cache"); }
	if cs.many { labels.push("over a thousand blocks"); }
	let base = hash_case(&cs.w, Some(&cs.input), &[&cs.c]);
	let mut hashes = vec![];
	let mut evals = 0usize;
	let mut seen = (false, false);
	let fail = (|| -> Result<(), String> {
		let (out, ops, n_ops) = logged(ctx, &cs.c, CHANGES);
		if !out.done() || out.error_reported() {
			return Err(format!("`{}` failed: {}", cs.c.show(), out.brief()));
		}
		let end = load(&dir);
		let rows = world::read_db(&dir.join(MAP))?;
		model::verify(&cs.w, &cs.plan, &rows)
			.map_err(|e| format!("after `{}`: {}", cs.c.show(), e))?;
		// Does the log explain the result?
		let mut fs = cs.files.clone();
		ops.iter().for_each(|o| apply(&mut fs, o));
		let complete = fs == end && !ops.iter().any(|o| matches!(o, Op::Other));
		labels.push(if complete { "all crash points reconstructed" }
			else { "log incomplete: kills only" });
		let writes = ops.iter().any(|o| matches!(o, Op::Write(..)));
		if !writes { labels.push("nothing written"); }
		let mut check = |fs_dir: &Path, what: String, tag: u64| -> Result<bool, String> {
			evals += 1;
			if writes { hashes.push(mix(base, tag)); }
			let (new, _) = old_or_new(fs_dir, &cs)
				.map_err(|e| format!("`{}`, {}: {}", cs.c.show(), what, e))?;
			if new { seen.1 = true } else { seen.0 = true }
			Ok(new)
		};
		if complete && writes {
			let max = if cs.spill || cs.many { 12 } else if ctx.thorough { 200 } else { 40 };
			let pick: Vec<usize> = if ops.len() <= max { (0..ops.len()).collect() }
				else {
					let mut v: Vec<usize> = (0..max)
						.map(|_| s.usize_to(ops.len() - 1)).collect();
					v.push(ops.len() - 1);
					v.sort();
					v.dedup();
					v
				};
			let mut r = Rng::new(s.seed());
			let mut fs = cs.files.clone();
			let mut disk = Disk::new(&cs.files);
			for (i, op) in ops.iter().enumerate() {
				if pick.contains(&i) {
					// The process dies at operation i.
					let mut f = fs.clone();
					if let Op::Write(p, off, d) = op {
						let n = match r.below(3) { 0 => 0, 1 => d.len() / 2,
							_ => r.below(d.len() as u64) as usize };
						apply(&mut f, &Op::Write(p.clone(), *off, d[..n].to_vec()));
					}
					store(&rec, &f);
					check(&rec, format!("process killed at file operation {} of {}",
						i, ops.len()), i as u64 * 4)?;
					// The machine dies.
					for v in 0..if cs.spill || cs.many { 1 } else { 2 } {
						let f = disk.crash(&mut r);
						store(&rec, &f);
						check(&rec, format!("power lost at file operation {} of {}",
							i, ops.len()), i as u64 * 4 + 1 + v)?;
					}
				}
				apply(&mut fs, op);
				disk.apply(op);
			}
		}
		// Real kills.
		let kills = if ctx.thorough { 5 } else { 2 };
		for k in 0..kills {
			if n_ops == 0 { break; }
			let at = s.below(n_ops);
			let part = *s.pick(&[0u32, 500, 100, 999]);
			store(&dir, &cs.files);
			let out = run_shim(ctx, &cs.c, &[("VH_MODE", "2".into()),
				("VH_MASK", CHANGES.to_string()), ("VH_AT", at.to_string()),
				("VH_PART", part.to_string())]);
			let what = format!("killed at file operation {} of {}", at, n_ops);
			if out.code.is_some() { labels.push("kill point not reached"); }
			let new = check(&dir, what.clone(), 1 << 32 | at)?;
			if !new && k == 0 {
				// Nothing lost: the command can simply be run again.
				let out = run_shim(ctx, &cs.c, &[]);
				if !out.done() || out.error_reported() {
					return Err(format!("`{}` fails when run again after having \
						been {}: {}", cs.c.show(), what, out.brief()));
				}
				let rows = world::read_db(&dir.join(MAP))?;
				model::verify(&cs.w, &cs.plan, &rows).map_err(|e| format!(
					"`{}` run again after having been {}: {}", cs.c.show(), what, e))?;
			}
		}
		let inp = std::fs::read(dir.join(IN)).unwrap_or_default();
		if inp != cs.files[IN] {
			return Err(format!("`{}` changed the input map", cs.c.show()));
		}
		Ok(())
	})().err();
	labels.push(match seen { (true, true) => "both old and new states seen",
		(true, false) => "only old state", _ => "only new state" });
	let _ = std::fs::remove_dir_all(&rec);
	let _ = std::fs::remove_dir_all(&dir);
	Res {
		fail,
		nontrivial: !hashes.is_empty() && (cs.plan.changed > 0 || cs.c.k == K::Vacuum),
		labels,
		desc: format!("{} crash states of `{}`  ON  {}", evals, cs.c.show(),
			gen::describe(&cs.w)),
		hash: base,
		evals,
		hashes,
	}
}

pub fn c22_faults(s: &mut Src, ctx: &Ctx) -> Res {
	let cs = case(s, ctx, true);
	let dir = ctx.env.path(SUB);
	let (mask, name) = *s.pick(&[(C_WRITE, "write"), (C_READ, "read"),
		(C_SYNC, "sync"), (C_READ, "read"), (C_CREATE, "create"),
		(C_UNLINK, "unlink"), (C_TRUNC, "truncate"), (C_WRITE, "write"),
		(C_LOCK, "lock"), (CHANGES, "any change")]);
	let mut labels = vec![cs.c.k.name(), name];
	if cs.spill { labels.push("larger than the page cache"); }
	if cs.many { labels.push("over a thousand blocks"); }
	let base = hash_case(&cs.w, Some(&cs.input), &[&cs.c]);
	let mut hashes = vec![];
	let mut evals = 0usize;
	let mut outcome = [false; 3];
	let fail = (|| -> Result<(), String> {
		let (out, _, n) = logged(ctx, &cs.c, mask);
		if !out.done() || out.error_reported() {
			return Err(format!("`{}` failed: {}", cs.c.show(), out.brief()));
		}
		let rows = world::read_db(&dir.join(MAP))?;
		model::verify(&cs.w, &cs.plan, &rows)
			.map_err(|e| format!("after `{}`: {}", cs.c.show(), e))?;
		// Nobody can be told of success without standard output, but the map
		// must not suffer, and the exit status must tell of a failure.
		if s.chance(1, 8) {
			labels.push("standard output fails");
			let how = *s.pick(&["full", "pipe"]);
			store(&dir, &cs.files);
			let out = run_shim(ctx, &cs.c, &[("VH_STDOUT", how.into())]);
			evals += 1;
			hashes.push(mix(base, how.len() as u64 | 1 << 50));
			let what = format!("`{}` with a standard output that is {}", cs.c.show(),
				if how == "full" { "full" } else { "closed" });
			let (new, rows) = old_or_new(&dir, &cs)
				.map_err(|e| format!("{}: {}", what, e))?;
			if !out.error_reported() {
				if !new && cs.plan.changed > 0 {
					return Err(format!("{}: did nothing, but exits as if it had",
						what));
				}
				model::verify(&cs.w, &cs.plan, &rows)
					.map_err(|e| format!("{}: {}", what, e))?;
			}
		}
		if n == 0 { labels.push("no such operation"); return Ok(()); }
		let tries = if ctx.thorough { 16 } else { 6 };
		let ats: Vec<u64> = if n <= tries { (0..n).collect() }
			else { (0..tries).map(|_| s.below(n)).collect() };
		for at in ats {
			let sticky = s.bool();
			let err = match mask {
				C_READ => *s.pick(&[5, 5, 116]),
				C_SYNC => *s.pick(&[5, 28]),
				C_CREATE => *s.pick(&[13, 28, 24, 5]),
				C_UNLINK => *s.pick(&[13, 5, 1]),
				C_LOCK => *s.pick(&[11, 11, 13, 37, 5]),
				_ => *s.pick(&[28, 5, 122]),
			};
			store(&dir, &cs.files);
			let out = run_shim(ctx, &cs.c, &[("VH_MODE", "3".into()),
				("VH_MASK", mask.to_string()), ("VH_AT", at.to_string()),
				("VH_ERR", err.to_string()),
				("VH_STICKY", (sticky as u32).to_string())]);
			evals += 1;
			hashes.push(mix(base, (mask as u64) << 32 | at << 8 | err as u64
				| (sticky as u64) << 40));
			let what = format!("`{}` with errno {} at {} operation {} of {}{}",
				cs.c.show(), err, name, at, n,
				if sticky { " and all later ones" } else { "" });
			let (new, rows) = old_or_new(&dir, &cs)
				.map_err(|e| format!("{}: {}", what, e))?;
			if out.done() && !out.error_reported() {
				outcome[0] = true;
				model::verify(&cs.w, &cs.plan, &rows)
					.and_then(|_| crate::cli::compact(&cs.c, &dir.join(MAP)))
					.map_err(|e| format!("{}: reported success, but: {}", what, e))?;
			} else if !out.error_reported() {
				return Err(format!("{}: failed silently: {}", what, out.brief()));
			} else {
				outcome[if new { 2 } else { 1 }] = true;
			}
			if std::fs::read(dir.join(IN)).ok().as_ref() != cs.files.get(IN) {
				return Err(format!("{}: changed the input map", what));
			}
		}
		Ok(())
	})().err();
	if outcome[0] { labels.push("tolerated, success"); }
	if outcome[1] { labels.push("error, old state"); }
	if outcome[2] { labels.push("error, but already committed"); }
	let _ = std::fs::remove_dir_all(&dir);
	Res {
		fail,
		nontrivial: !hashes.is_empty() && (cs.plan.changed > 0 || cs.c.k == K::Vacuum),
		labels,
		desc: format!("{} {} faults in `{}`  ON  {}", evals, name, cs.c.show(),
			gen::describe(&cs.w)),
		hash: base,
		evals,
		hashes,
	}
}
