//! Properties decided by running one or more commands on generated worlds.

use std::collections::BTreeMap;
use crate::codec::{self, Block, EncOpts};
use crate::gen::{self, Cfg};
use crate::model::{self, Cmd, Exp, K, Plan};
use crate::src::Src;
use crate::world::{self, Env, Out, Row, St, World, V3, pos_of, key_of};

pub struct Ctx {
	pub env: Env,
	pub shim: std::path::PathBuf,
	pub thorough: bool,
}

#[derive(Default)]
pub struct Res {
	pub fail: Option<String>,
	pub nontrivial: bool,
	pub labels: Vec<&'static str>,
	pub desc: String,
	pub hash: u64,
	/// Number of states examined, if more than one.
	pub evals: usize,
	/// One hash per non-trivial state examined, if more than one.
	pub hashes: Vec<u64>,
}

pub type CaseFn = fn(&mut Src, &Ctx) -> Res;

pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
	for c in b.chunks(8) {
		let mut v = [0u8; 8];
		v[..c.len()].copy_from_slice(c);
		h = (h ^ u64::from_le_bytes(v)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
		h ^= h >> 29;
	}
	h ^ b.len() as u64
}

pub fn hash_world(mut h: u64, w: &World) -> u64 {
	for (k, r) in &w.rows {
		h = hash_bytes(h, &k.to_le_bytes());
		h = hash_bytes(h, &r.bytes);
	}
	h
}

pub fn hash_case(w: &World, input: Option<&World>, cmds: &[&Cmd]) -> u64 {
	let mut h = hash_world(1, w);
	if let Some(i) = input { h = hash_world(h, i); }
	for c in cmds { h = hash_bytes(h, c.args().join("\0").as_bytes()); }
	h
}

pub type Rows = BTreeMap<i64, Vec<u8>>;

pub const MAP: &str = "map.sqlite";
pub const IN: &str = "in.sqlite";

pub fn setup(ctx: &Ctx, w: &World, input: Option<&World>) {
	world::write_db(&ctx.env.path(MAP), w).expect("cannot write map");
	if let Some(d) = std::env::var_os("VH_DUMP") {
		let _ = world::write_db(std::path::Path::new(&d), w);
	}
	if let Some(i) = input {
		world::write_db(&ctx.env.path(IN), i).expect("cannot write input map");
	}
}

/// Run a command on the map as it is on disk.
pub fn step(ctx: &Ctx, c: &Cmd) -> Result<(Out, Rows), String> {
	let out = ctx.env.run_cmd(MAP, &c.args());
	finish(ctx, c, out)
}

pub fn finish(ctx: &Ctx, c: &Cmd, out: Out) -> Result<(Out, Rows), String> {
	if out.panicked() {
		return Err(format!("`{}` crashed: {}", c.show(), out.brief()));
	}
	if !out.done() || out.error_reported() {
		return Err(format!("`{}` failed: {}", c.show(), out.brief()));
	}
	let rows = world::read_db(&ctx.env.path(MAP))
		.map_err(|e| format!("map unreadable after `{}`: {}", c.show(), e))?;
	Ok((out, rows))
}

pub fn exec(ctx: &Ctx, w: &World, input: Option<&World>, c: &Cmd)
	-> Result<(Out, Rows), String>
{
	setup(ctx, w, input);
	step(ctx, c)
}

pub fn to_world(rows: &Rows, opts: &world::DbOpts) -> World {
	World {
		rows: rows.iter().map(|(k, v)| (*k, Row::classify(v.clone()))).collect(),
		opts: opts.clone(),
	}
}

/// Numbers in the command's own report line.
pub fn reported(out: &Out) -> Vec<(f64, bool)> {
	let mut v = vec![];
	for l in out.stdout.split(['\n', '\r']) {
		let l = match l.trim().strip_prefix("info: ") { Some(l) => l, None => continue };
		if l.starts_with("Skipped") {
			continue;
		}
		v.extend(numbers(l));
	}
	v
}

pub fn skipped(out: &Out) -> u64 {
	for l in out.stdout.split(['\n', '\r']) {
		if let Some(l) = l.trim().strip_prefix("info: Skipped") {
			if let Some(n) = numbers(l).first() { return n.0 as u64; }
		}
	}
	0
}

/// (value, abbreviated)
fn numbers(l: &str) -> Vec<(f64, bool)> {
	let mut v = vec![];
	for t in l.split_whitespace() {
		let t = t.trim_end_matches(['.', ',']);
		let (num, unit) = match t.chars().last() {
			Some('k') => (&t[..t.len() - 1], 1e3),
			Some('M') => (&t[..t.len() - 1], 1e6),
			Some('B') => (&t[..t.len() - 1], 1e9),
			Some('T') => (&t[..t.len() - 1], 1e12),
			_ => (t, 1.0),
		};
		if num.starts_with(|c: char| c.is_ascii_digit()) {
			if let Ok(x) = num.parse::<f64>() { v.push((x * unit, unit > 1.0)); }
		}
	}
	v
}

pub fn check_report(pl: &Plan, out: &Out) -> Result<(), String> {
	let r = match &pl.report { Some(r) => r, None => return Ok(()) };
	let got = reported(out);
	let bad = || Err(format!("reported counts {:?} do not match the {:?} changes \
		actually due ({})", got.iter().map(|g| g.0).collect::<Vec<_>>(), r.nums,
		out.brief()));
	if got.len() != r.nums.len() {
		return bad();
	}
	for (g, &e) in got.iter().zip(&r.nums) {
		let e = e as f64;
		let ok = if g.1 { (g.0 - e).abs() <= e * 0.006 } else { g.0 == e };
		if !ok {
			return bad();
		}
	}
	Ok(())
}

fn class(w: &World, c: &Cmd, pl: &Plan) -> Vec<&'static str> {
	let mut l = vec![c.k.name()];
	if c.p1.is_some() { l.push("area"); }
	if c.invert { l.push("invert"); }
	if c.offset.is_some() { l.push("offset"); }
	if pl.partial > 0 { l.push("partly-selected block"); }
	if pl.changed > 0 { l.push("changes something"); }
	if w.rows.values().any(|r| matches!(r.st, St::Bad)) { l.push("bad row"); }
	if w.rows.values().any(|r| r.good().map_or(false, |b| !b.generated())) {
		l.push("ungenerated block");
	}
	for (v, n) in [(25, "v25"), (27, "v27"), (28, "v28"), (29, "v29")] {
		if w.rows.values().any(|r| r.good().map_or(false, |b| b.version == v)) {
			l.push(n);
		}
	}
	l
}

/// Generate a world and one command, run it, and compare with the model.
fn model_case(s: &mut Src, ctx: &Ctx, k: K, cfg: Cfg,
	tweak: impl Fn(&mut Src, &mut Cmd, &World)) -> Res
{
	let b = gen::base(s);
	let dense = if k == K::Clone || k == K::Overlay { 2 } else { 1 };
	let w = if s.chance(dense, 4 - dense / 2) { gen::cuboid(s, &cfg, b) }
		else { gen::world(s, &cfg, b) };
	let mut c = gen::cmd(s, k, &w, b);
	let input = if k == K::Overlay { Some(gen::input_world(s, &cfg, &w, b)) }
		else { None };
	tweak(s, &mut c, &w);
	if c.k == K::Overlay && c.offset.is_some() && !c.invert && s.bool() {
		gen::aim(s, input.as_ref().unwrap(), &w, &mut c);
	}
	if (k == K::Clone || k == K::Overlay) && !gen::dst_ok(&c) {
		c.offset = Some([0, 0, 0]);
		if k == K::Clone { c.offset = Some([0, 16, 0]); }
		if !gen::dst_ok(&c) { c.offset = Some([0, -16, 0]); }
	}
	run_model(ctx, &w, input.as_ref(), &c)
}

pub fn run_model(ctx: &Ctx, w: &World, input: Option<&World>, c: &Cmd) -> Res {
	run_with(ctx, w, input, c, false)
}

/// The reported counts are judged, too.
pub fn run_report(ctx: &Ctx, w: &World, input: Option<&World>, c: &Cmd) -> Res {
	run_with(ctx, w, input, c, true)
}

fn run_with(ctx: &Ctx, w: &World, input: Option<&World>, c: &Cmd, report: bool)
	-> Res
{
	let pl = model::plan(w, input, c);
	let fail = (|| {
		let (out, after) = exec(ctx, w, input, c)?;
		if report {
			check_report(&pl, &out)
				.map_err(|e| format!("after `{}`: {}", c.show(), e))?;
			if let Some((lo, hi)) = bad_selected(w, input, c) {
				let n = skipped(&out) as f64;
				let slack = if n >= 1000.0 { 0.006 } else { 0.0 };
				if n < lo as f64 * (1.0 - slack) || n > hi as f64 * (1.0 + slack) {
					return Err(format!("`{}` reported {} skipped blocks; {}-{} due",
						c.show(), n, lo, hi));
				}
			}
		}
		model::verify(w, &pl, &after)
			.map_err(|e| format!("after `{}`: {}", c.show(), e))
	})().err();
	Res {
		fail,
		nontrivial: pl.changed > 0,
		labels: class(w, c, &pl),
		desc: format!("mapeditr map.sqlite {}  ON  {}{}", c.show(),
			gen::describe(w), input.map_or(String::new(),
			|i| format!("  INPUT  {}", gen::describe(i)))),
		hash: hash_case(w, input, &[c]),
		..Res::default()
	}
}

pub fn c03_fill(s: &mut Src, x: &Ctx) -> Res {
	model_case(s, x, K::Fill, Cfg { dup: true, ungen: 15, bad: 3, ..Cfg::default() },
		|_, _, _| ())
}
pub fn c04_replacenodes(s: &mut Src, x: &Ctx) -> Res {
	model_case(s, x, K::ReplaceNodes, Cfg { meta: 20, objs: 15, timers: 15,
		..Cfg::default() }, |_, _, _| ())
}
pub fn c05_setparam2(s: &mut Src, x: &Ctx) -> Res {
	model_case(s, x, K::SetParam2, Cfg { meta: 20, objs: 15, timers: 15,
		..Cfg::default() }, |_, _, _| ())
}
pub fn c06_deletemeta(s: &mut Src, x: &Ctx) -> Res {
	model_case(s, x, K::DeleteMeta, Cfg { meta: 85, ..Cfg::default() },
		|_, _, _| ())
}
pub fn c07_setmetavar(s: &mut Src, x: &Ctx) -> Res {
	model_case(s, x, K::SetMetaVar, Cfg { meta: 90, ..Cfg::default() },
		|_, _, _| ())
}
pub fn c08_replaceininv(s: &mut Src, x: &Ctx) -> Res {
	model_case(s, x, K::ReplaceInInv, Cfg { meta: 90, ..Cfg::default() },
		|_, _, _| ())
}
pub fn c09_deleteobjects(s: &mut Src, x: &Ctx) -> Res {
	let items = if s.bool() { 80 } else { 20 };
	model_case(s, x, K::DeleteObjects, Cfg { objs: 90, items, ..Cfg::default() },
		|_, _, _| ())
}
pub fn c10_deletetimers(s: &mut Src, x: &Ctx) -> Res {
	model_case(s, x, K::DeleteTimers, Cfg { timers: 90, ..Cfg::default() },
		|_, _, _| ())
}
pub fn c11_deleteblocks(s: &mut Src, x: &Ctx) -> Res {
	model_case(s, x, K::DeleteBlocks, Cfg { meta: 5, objs: 5, timers: 5, bad: 20,
		max_blocks: 30, avg_blocks: 8, ..Cfg::default() }, |_, _, _| ())
}
pub fn c12_clone(s: &mut Src, x: &Ctx) -> Res {
	model_case(s, x, K::Clone, Cfg { dup: true, meta: 50, avg_blocks: 5,
		..Cfg::default() }, |_, _, _| ())
}
pub fn c14_overlay(s: &mut Src, x: &Ctx) -> Res {
	model_case(s, x, K::Overlay, Cfg { dup: true, meta: 50, objs: 40, timers: 40,
		ungen: 12, avg_blocks: 4, ..Cfg::default() }, |s, c, _| {
		if s.chance(1, 8) { c.offset = Some([0; 3]); }
	})
}
pub fn c15_overlay_offset(s: &mut Src, x: &Ctx) -> Res {
	let cfg = Cfg { dup: true, meta: 50, ungen: 10, avg_blocks: 4,
		..Cfg::default() };
	if s.chance(1, 16) { return beyond_the_edge(s, x, &cfg); }
	model_case(s, x, K::Overlay, cfg, |s, c, _| {
		c.invert = false;
		c.offset = Some(gen::offset(s));
	})
}

/// The source of an existing block lies outside the map, where the key of its
/// position would be that of another block, at the opposite side of the map.
fn beyond_the_edge(s: &mut Src, x: &Ctx, cfg: &Cfg) -> Res {
	let b = gen::base(s);
	let w = gen::cuboid(s, cfg, b);
	let mut input = gen::world(s, cfg, b);
	let mut c = Cmd::new(K::Overlay);
	c.input_map = Some(IN.into());
	c.offset = Some([0, 16, 0]);
	let keys: Vec<i64> = w.rows.keys().copied().collect();
	if !keys.is_empty() {
		let d = pos_of(*s.pick(&keys));
		let ax = s.below(2) as usize;
		// Far enough from the side where the offset would be too large.
		let side = if d[ax] < 0 { 1 } else if d[ax] > 0 { -1 }
			else { *s.pick(&[1, -1]) };
		let mut p: world::V3 = [0, 1, 2].map(|i| (d[i] + s.range(-2, 2))
			.max(-1930).min(1930));
		p[ax] = side * (1937 - s.range(0, 3));
		let mut src = p;
		src[ax] -= side * 4096;
		src[ax + 1] += side;
		for q in [p, [p[0], p[1], p[2] + 1], [p[0], p[1], p[2] - 1]] {
			let blk = gen::block(s, &Cfg { ungen: 0, ..cfg.clone() }, q);
			let o = gen::enc_opts(s, &blk);
			input.rows.insert(key_of(q), Row::classify(blk.encode(&o)));
		}
		let fine = s.bool();
		let mut o = [0i64; 3];
		for i in 0..3 {
			o[i] = (d[i] - src[i]) * 16 + if fine { s.range(-8, 8) } else { 0 };
		}
		if o.iter().all(|v| v.abs() <= 62000) { c.offset = Some(o); }
	}
	run_model(x, &w, Some(&input), &c)
}

const EDITS: [K; 11] = [K::Fill, K::ReplaceNodes, K::SetParam2, K::DeleteMeta,
	K::SetMetaVar, K::ReplaceInInv, K::DeleteObjects, K::DeleteTimers, K::Clone,
	K::Overlay, K::DeleteBlocks];

/// A world, a command of any kind, and the input map if one is needed.
pub fn any_case(s: &mut Src, cfg: &Cfg, ks: &[K]) -> (World, Option<World>, Cmd) {
	let k = *s.pick(ks);
	let mut cfg = cfg.clone();
	cfg.dup = matches!(k, K::Fill | K::Clone | K::Overlay);
	let b = gen::base(s);
	let w = if s.chance(1, 4) { gen::cuboid(s, &cfg, b) }
		else { gen::world(s, &cfg, b) };
	let mut c = gen::cmd(s, k, &w, b);
	let input = if k == K::Overlay {
		if !c.invert && s.bool() { c.offset = Some(gen::offset(s)); }
		Some(gen::input_world(s, &cfg, &w, b))
	} else { None };
	if !gen::dst_ok(&c) {
		c.offset = if k == K::Clone { Some([0, 16, 0]) } else { None };
		if !gen::dst_ok(&c) { c.offset = Some([0, -16, 0]); }
	}
	(w, input, c)
}

fn rich() -> Cfg {
	Cfg { meta: 75, objs: 60, timers: 60, big: 6, ..Cfg::default() }
}

pub fn c01_preserve(s: &mut Src, ctx: &Ctx) -> Res {
	let (w, input, c) = any_case(s, &rich(), &EDITS);
	let pl = model::plan(&w, input.as_ref(), &c);
	let mut rewritten = 0;
	let fail = (|| -> Result<(), String> {
		let (_, after) = exec(ctx, &w, input.as_ref(), &c)?;
		for (&k, row) in &w.rows {
			let a = match after.get(&k) {
				Some(a) => a,
				None if c.k == K::DeleteBlocks => continue,
				None => return Err(format!("block {:?} disappeared after `{}`",
					pos_of(k), c.show())),
			};
			if *a == row.bytes { continue; }
			let p = pos_of(k);
			let err = |e: String| Err(format!("block {:?} after `{}`: {}", p,
				c.show(), e));
			let (any, _) = model::block_sel(if c.k == K::Clone
				|| c.offset.is_some() { c.area().map(|a| a.shift(
				c.offset.unwrap())) } else { c.area() }, c.invert, p);
			if !any {
				return err("lies outside the selection but was changed".into());
			}
			if c.k == K::DeleteBlocks {
				return err("was changed instead of deleted or kept".into());
			}
			let b = match &row.st {
				St::Good(b) => b,
				St::Gray => continue,
				// Overlay may replace a broken block as a whole.
				St::Bad if c.k == K::Overlay => continue,
				St::Bad => return err("is unsupported, but was changed".into()),
			};
			if c.k == K::Overlay && c.offset.map_or(true, |o| o == [0; 3]) {
				continue; // Objects, timers and header may come from the source
			}
			if b.meta.len() + b.objs.len() + b.timers.len() > 0 { rewritten += 1; }
			let got = match codec::decode(a, true) {
				Ok(g) => g,
				Err(e) => return err(format!("not a valid mapblock: {}", e)),
			};
			let mut exp = (**b).clone();
			match c.k {
				K::Fill | K::ReplaceNodes => {
					exp.nodes = got.nodes.clone();
					exp.names = got.names.clone();
				},
				K::SetParam2 => exp.p2 = got.p2.clone(),
				K::DeleteMeta => exp.meta.retain(|k, _| got.meta.contains_key(k)),
				K::SetMetaVar => {
					let key = c.key.as_ref().unwrap().as_bytes();
					for (i, m) in exp.meta.iter_mut() {
						match got.meta.get(i).and_then(|g| g.vars.get(key)) {
							Some(v) if m.vars.contains_key(key) => {
								m.vars.get_mut(key).unwrap().0 = v.0.clone();
							},
							_ => { m.vars.remove(key); },
						}
					}
				},
				K::ReplaceInInv => {
					for (i, m) in exp.meta.iter_mut() {
						let g = match got.meta.get(i) {
							Some(g) => g,
							None => continue
						};
						// Lines that are not the item keep their places.
						let it = format!("Item {}", c.item.as_ref().unwrap());
						let keep = |inv: &[u8]| inv.split(|&c| c == b'\n')
							.map(|l| l.to_vec()).collect::<Vec<_>>();
						let (x, y) = (keep(&m.inv), keep(&g.inv));
						if x.len() != y.len() {
							return err(format!("inventory at {} has {} lines \
								instead of {}", i, y.len(), x.len()));
						}
						for (lx, ly) in x.iter().zip(&y) {
							let is_item = lx.starts_with(it.as_bytes());
							if lx != ly && !is_item {
								return err(format!("inventory at {}: line {} \
									became {}", i, codec::show(lx),
									codec::show(ly)));
							}
						}
						m.inv = g.inv.clone();
					}
				},
				K::DeleteObjects => {
					let mut left = got.objs.clone();
					exp.objs.retain(|o| match left.iter().position(|g| g == o) {
						Some(i) => { left.swap_remove(i); true },
						None => false
					});
				},
				K::DeleteTimers =>
					exp.timers.retain(|t| got.timers.contains(t)),
				_ => { // Clone, overlay with offset
					exp.nodes = got.nodes.clone();
					exp.names = got.names.clone();
					exp.p1 = got.p1.clone();
					exp.p2 = got.p2.clone();
					exp.meta = got.meta.clone();
				},
			}
			if let Some(e) = codec::cmp_block(&exp, &got) {
				return err(format!("something the command does not target \
					changed: {}", e));
			}
		}
		for k in after.keys() {
			if !w.rows.contains_key(k) && c.k != K::Overlay {
				return Err(format!("block {:?} appeared after `{}`", pos_of(*k),
					c.show()));
			}
		}
		Ok(())
	})().err();
	Res {
		fail,
		nontrivial: rewritten > 0,
		labels: class(&w, &c, &pl),
		desc: format!("{}  ON  {}", c.show(), gen::describe(&w)),
		hash: hash_case(&w, input.as_ref(), &[&c]),
		..Res::default()
	}
}

pub fn c02_valid(s: &mut Src, ctx: &Ctx) -> Res {
	let mut cfg = rich();
	cfg.big = 12;
	cfg.avg_blocks = 2;
	let (w, input, c) = any_case(s, &cfg, &EDITS[..10]);
	let pl = model::plan(&w, input.as_ref(), &c);
	let mut written = 0;
	let fail = (|| -> Result<(), String> {
		let (_, after) = exec(ctx, &w, input.as_ref(), &c)?;
		for (k, a) in &after {
			let before = w.rows.get(k);
			if before.map_or(false, |r| r.bytes == *a) { continue; }
			let src = input.as_ref().and_then(|i| i.rows.get(k));
			if src.map_or(false, |r| r.bytes == *a) { continue; }
			if before.map_or(false, |r| matches!(r.st, St::Gray)) { continue; }
			if src.map_or(false, |r| matches!(r.st, St::Gray)) { continue; }
			written += 1;
			let g = codec::decode(a, true).map_err(|e| format!("block {:?} \
				written by `{}` is not a valid mapblock: {}", pos_of(*k),
				c.show(), e))?;
			let tidy_before = before.map_or(true, |r| r.good().map_or(true, tidy));
			if (tidy_before || matches!(c.k, K::Clone | K::Overlay)) && !tidy(&g) {
				return Err(format!("`{}` left unused or duplicate names in block {:?}",
					c.show(), pos_of(*k)));
			}
			let vers: Vec<u8> = before.iter().chain(src.iter())
				.filter_map(|r| r.bytes.first().copied()).collect();
			if !vers.contains(&g.version) {
				return Err(format!("block {:?} written by `{}` changed its \
					format version from {:?} to {}", pos_of(*k), c.show(),
					vers, g.version));
			}
		}
		world::integrity(&ctx.env.path(MAP))
	})().err();
	Res {
		fail,
		nontrivial: written > 0,
		labels: class(&w, &c, &pl),
		desc: format!("{}  ON  {}", c.show(), gen::describe(&w)),
		hash: hash_case(&w, input.as_ref(), &[&c]),
		..Res::default()
	}
}

/// No name is listed twice, and none without being used.
fn tidy(b: &Block) -> bool {
	let used: std::collections::HashSet<u16> = b.nodes.iter().copied().collect();
	let names: std::collections::HashSet<&[u8]> = b.names.iter()
		.map(|n| n.1.as_slice()).collect();
	names.len() == b.names.len() && b.names.iter().all(|n| used.contains(&n.0))
}

/// Ways in which the source map may have been left by its last user.
#[derive(Clone, Copy, PartialEq)]
enum InState { Closed, WalClean, WalPending, WalShm, Hot, Reader }

/// Files of the source map in the given state.
fn write_input(dir: &std::path::Path, w: &World, st: InState, seed: u64)
	-> Result<(), String>
{
	let tmp = dir.join("tmp");
	std::fs::create_dir_all(&tmp).unwrap();
	let at = tmp.join(MAP);
	let copy = |suffix: &[&str]| for s in suffix {
		let from = tmp.join(format!("{}{}", MAP, s));
		// There is no log if nothing was written.
		if !s.is_empty() && !from.exists() { continue; }
		std::fs::copy(from, dir.join(format!("{}{}", MAP, s)))
			.expect("cannot copy input map");
	};
	let mut r = crate::src::Rng::new(seed);
	let early = |r: &mut crate::src::Rng| r.below(2) == 0;
	match st {
		InState::Closed | InState::Reader => {
			world::write_db(&at, w)?;
			copy(&[""]);
		},
		InState::Hot => {
			world::write_db(&at, w)?;
			let db = crate::ffi::Db::open(at.to_str().unwrap(), false)?;
			db.exec("PRAGMA cache_size=5; BEGIN;")?;
			for i in 0..60 {
				db.exec(&format!("INSERT INTO blocks VALUES ({}, randomblob(3000));",
					1_000_000_000_000i64 + i))?;
			}
			db.exec("UPDATE blocks SET data = zeroblob(100);")?;
			copy(&["", "-journal"]);
			db.exec("ROLLBACK")?;
		},
		_ => {
			// Some rows were added or replaced after switching to the log.
			let mut w0 = w.clone();
			let mut late = vec![];
			for (k, row) in &w.rows {
				if early(&mut r) { continue; }
				late.push((*k, row.bytes.clone()));
				if early(&mut r) { w0.rows.remove(k); }
				else { w0.rows.get_mut(k).unwrap().bytes = vec![0; 50]; }
			}
			world::write_db(&at, &w0)?;
			let db = crate::ffi::Db::open(at.to_str().unwrap(), false)?;
			db.exec("PRAGMA journal_mode=WAL; PRAGMA wal_autocheckpoint=0;")?;
			{
				let q = db.prepare("REPLACE INTO blocks (pos, data) VALUES (?, ?)")?;
				for (k, v) in &late {
					q.bind_i64(1, *k);
					q.bind_blob(2, v);
					q.step()?;
					q.reset();
				}
			}
			match st {
				InState::WalClean => { drop(db); copy(&[""]); },
				InState::WalShm => copy(&["", "-wal", "-shm"]),
				_ => copy(&["", "-wal"]),
			}
		},
	}
	std::fs::remove_dir_all(&tmp).unwrap();
	Ok(())
}

/// Content and time of last change of every file.
fn snapshot(dir: &std::path::Path)
	-> BTreeMap<String, (Vec<u8>, std::time::SystemTime)>
{
	std::fs::read_dir(dir).unwrap().map(|e| {
		let e = e.unwrap();
		(e.file_name().into_string().unwrap(), (std::fs::read(e.path()).unwrap(),
			e.metadata().unwrap().modified().unwrap()))
	}).collect()
}

/// The overlay's source map is only read.
pub fn c16_input_untouched(s: &mut Src, ctx: &Ctx) -> Res {
	let cfg = Cfg { avg_blocks: 4, bad: 8, ..Cfg::default() };
	let (w, input, mut c) = any_case(s, &cfg, &[K::Overlay]);
	let mut input = input.unwrap();
	if s.chance(1, 12) { return c16_same_map(s, ctx, w, c); }
	input.opts.wal = false;
	let as_dir = s.chance(1, 3);
	let ro = s.chance(1, 3);
	let st = match s.weighted(&[10, 3, 3, 3, 2, 2]) {
		0 => InState::Closed, 1 => InState::WalClean, 2 => InState::WalPending,
		3 => InState::WalShm, 4 => InState::Hot, _ => InState::Reader };
	let wal = matches!(st, InState::WalClean | InState::WalPending
		| InState::WalShm);
	let seed = s.seed();
	let pl = model::plan(&w, Some(&input), &c);
	let fail = (|| -> Result<(), String> {
		setup(ctx, &w, None);
		let dir = ctx.env.path("srcworld");
		let _ = std::fs::remove_dir_all(&dir);
		std::fs::create_dir_all(&dir).unwrap();
		let file = dir.join(MAP);
		write_input(&dir, &input, st, seed).expect("cannot write input map");
		if as_dir && seed & 1 == 0 {
			std::fs::write(dir.join("world.mt"), "gameid = minetest\n").unwrap();
		}
		if ro {
			let mut p = std::fs::metadata(&file).unwrap().permissions();
			p.set_readonly(true);
			std::fs::set_permissions(&file, p).unwrap();
		}
		c.input_map = Some(if as_dir { "srcworld".into() }
			else { "srcworld/map.sqlite".into() });
		let main0 = std::fs::read(ctx.env.path(MAP)).unwrap();
		let before = snapshot(&dir);
		// Another program that is reading the same map
		let other = if st == InState::Reader {
			let db = crate::ffi::Db::open_ro(file.to_str().unwrap())?;
			db.exec("BEGIN; SELECT count(*) FROM blocks;")?;
			Some(db)
		} else { None };
		let out = ctx.env.run_cmd(MAP, &c.args());
		drop(other);
		let after = snapshot(&dir);
		let _ = std::fs::remove_dir_all(&dir);
		for (n, v) in &before {
			if n.ends_with("-shm") { continue; } // Shared memory, not content
			match after.get(n) {
				None => return Err(format!("`{}` removed {} of the source map",
					c.show(), n)),
				Some(x) if x.0 != v.0 => return Err(format!("`{}` modified {} of \
					the source map", c.show(), n)),
				Some(x) if x.1 != v.1 => return Err(format!("`{}` wrote to {} of \
					the source map", c.show(), n)),
				_ => (),
			}
		}
		for (n, v) in &after {
			// SQLite itself needs these for maps in WAL mode.
			let side = wal && (n.ends_with("-shm")
				|| n.ends_with("-wal") && v.0.is_empty());
			if !before.contains_key(n) && !side {
				return Err(format!("`{}` left {} next to the source map",
					c.show(), n));
			}
		}
		if st == InState::Hot && out.error_reported() && !out.panicked() {
			// It can not be read without being repaired first.
			if std::fs::read(ctx.env.path(MAP)).unwrap() != main0 {
				return Err(format!("`{}` failed, but changed the map", c.show()));
			}
			return Ok(());
		}
		let (_, rows) = finish(ctx, &c, out)?;
		model::verify(&w, &pl, &rows)
			.map_err(|e| format!("after `{}`: {}", c.show(), e))
	})().err();
	let mut labels = class(&w, &c, &pl);
	labels.push(match st { InState::Closed => "closed map",
		InState::WalClean => "WAL map, no log", InState::WalPending => "WAL map with \
		log", InState::WalShm => "WAL map with log and index", InState::Hot =>
		"interrupted transaction", InState::Reader => "another reader" });
	if as_dir { labels.push("world directory"); }
	if ro { labels.push("read-only file"); }
	Res {
		fail,
		nontrivial: pl.changed > 0,
		labels,
		desc: format!("{}  ON  {}  INPUT  {}", c.show(), gen::describe(&w),
			gen::describe(&input)),
		hash: hash_case(&w, Some(&input), &[&c]),
		..Res::default()
	}
}

/// The map itself as the source: a snapshot of it, or an error and no change.
fn c16_same_map(s: &mut Src, ctx: &Ctx, mut w: World, mut c: Cmd) -> Res {
	w.opts.wal = s.bool();
	let way = s.below(5);
	let pl = model::plan(&w, Some(&w), &c);
	let mut worked = false;
	let fail = (|| -> Result<(), String> {
		setup(ctx, &w, None);
		let other = ctx.env.path("other.sqlite");
		let _ = std::fs::remove_file(&other);
		c.input_map = Some(match way {
			0 => MAP.into(),
			1 => format!("./{}", MAP),
			2 => ".".into(),
			3 => {
				std::os::unix::fs::symlink(MAP, &other).unwrap();
				"other.sqlite".into()
			},
			_ => ctx.env.path(MAP).to_str().unwrap().into(),
		});
		let out = ctx.env.run_cmd(MAP, &c.args());
		let _ = std::fs::remove_file(&other);
		let rows = world::read_db(&ctx.env.path(MAP))?;
		worked = !out.error_reported();
		let r = if worked && !out.done() {
			Err(format!("neither done nor failed: {}", out.brief()))
		} else if worked {
			model::verify(&w, &pl, &rows)
		} else if rows.len() != w.rows.len()
			|| w.rows.iter().any(|(k, r)| rows.get(k) != Some(&r.bytes))
		{
			Err("failed, but changed the map".to_string())
		} else { Ok(()) };
		r.map_err(|e| format!("`{}` with the map itself as source: {}", c.show(), e))
	})().err();
	Res {
		fail,
		nontrivial: pl.changed > 0,
		labels: vec![K::Overlay.name(), if worked { "source is the map itself" }
			else { "source is the map itself, refused" }],
		desc: format!("{}  ON ITSELF  {}", c.show(), gen::describe(&w)),
		hash: hash_case(&w, None, &[&c]),
		..Res::default()
	}
}

pub fn c17_vacuum(s: &mut Src, ctx: &Ctx) -> Res {
	let cfg = Cfg { bad: 20, max_blocks: 60, avg_blocks: 12, ..Cfg::default() };
	let b = gen::base(s);
	let mut w = gen::world(s, &cfg, b);
	if s.chance(2, 3) {
		w.opts.junk = 1 + s.below(80) as u32;
	}
	if s.chance(1, 3) {
		w.opts.frag = 1 + s.below(12) as u32;
		if s.bool() { w.opts.junk = 0; }
	}
	w.opts.wal = s.chance(1, 4);
	w.opts.user = s.chance(1, 2);
	let del_first = s.bool();
	let c = Cmd::new(K::Vacuum);
	let mut shrunk = false;
	let fail = (|| -> Result<(), String> {
		setup(ctx, &w, None);
		let path = ctx.env.path(MAP);
		let p = path.to_str().unwrap();
		let mut expect: Rows = w.rows.iter()
			.map(|(k, r)| (*k, r.bytes.clone())).collect();
		if del_first {
			let (p1, p2) = gen::corners(s, &w, b);
			let mut d = Cmd::new(K::DeleteBlocks);
			d.p1 = Some(p1);
			d.p2 = Some(p2);
			expect = step(ctx, &d)?.1;
		}
		let extra = |p: &str| -> Vec<String> {
			let db = crate::ffi::Db::open(p, false).unwrap();
			let mut v = db.text("SELECT sql FROM sqlite_master ORDER BY name").unwrap();
			for p in ["page_size", "auto_vacuum", "encoding", "user_version",
				"application_id", "journal_mode"]
			{
				v.extend(db.text(&format!("PRAGMA {}", p)).unwrap());
			}
			if w.opts.extra_table {
				v.extend(db.text("SELECT a FROM other ORDER BY rowid").unwrap());
			}
			v
		};
		let e0 = extra(p);
		// What the file could be reduced to.
		let copy = ctx.env.path("reference.sqlite");
		std::fs::copy(&path, &copy).map_err(|e| e.to_string())?;
		crate::ffi::Db::open(copy.to_str().unwrap(), false)?.exec("VACUUM")?;
		let least = std::fs::metadata(&copy).unwrap().len();
		let _ = std::fs::remove_file(&copy);
		let page = w.opts.page_size.max(512) as u64;
		let size0 = std::fs::metadata(&path).unwrap().len();
		let (_, rows) = step(ctx, &c)?;
		let size1 = std::fs::metadata(&path).unwrap().len();
		shrunk = size1 < size0;
		if rows != expect {
			return Err("vacuum changed the stored rows".into());
		}
		if extra(p) != e0 {
			return Err("vacuum changed other tables, the schema or settings".into());
		}
		world::integrity(&path).map_err(|e| format!("after vacuum: {}", e))?;
		let db = crate::ffi::Db::open(p, false).unwrap();
		let free = db.text("PRAGMA freelist_count")?;
		if free != ["0"] {
			return Err(format!("vacuum left {} free pages", free[0]));
		}
		if size1 > least + least / 50 + 2 * page {
			return Err(format!("vacuum left {} of {} bytes; SQLite's VACUUM \
				leaves {}", size1, size0, least));
		}
		if size1 > size0 {
			return Err(format!("vacuum grew the file from {} to {} bytes", size0,
				size1));
		}
		Ok(())
	})().err();
	Res {
		fail,
		nontrivial: shrunk,
		labels: vec![if shrunk { "file shrank" } else { "already compact" },
			if del_first { "after deleteblocks" } else { "as generated" },
			if w.opts.frag > 0 { "sparse pages" } else { "dense pages" }],
		desc: format!("vacuum  ON  {} (free pages: {}, deleted between rows: {})",
			gen::describe(&w),
			w.opts.junk, w.opts.frag),
		hash: hash_world(w.opts.junk as u64, &w),
		..Res::default()
	}
}

pub fn c18_malformed(s: &mut Src, ctx: &Ctx) -> Res {
	let cfg = Cfg { bad: 45, max_blocks: 14, avg_blocks: 6, meta: 40, objs: 30,
		timers: 30, ungen: 6, ..Cfg::default() };
	let (mut w, mut input, c) = any_case(s, &cfg, &EDITS);
	// Blocks that parse, but contain nonsense.
	let n_odd = s.usize_to(2);
	for _ in 0..n_odd {
		let keys: Vec<i64> = w.rows.keys().copied().collect();
		if keys.is_empty() { break; }
		let k = *s.pick(&keys);
		let r = s.span(|s| nonsense_row(s, &cfg, pos_of(k)));
		if input.is_some() && s.bool() { input.as_mut().unwrap().rows.insert(k, r); }
		else { w.rows.insert(k, r); }
	}
	let pl = model::plan(&w, input.as_ref(), &c);
	let bad_sel = bad_selected(&w, input.as_ref(), &c);
	let fail = (|| -> Result<(), String> {
		let (out, after) = exec(ctx, &w, input.as_ref(), &c)?;
		model::verify(&w, &pl, &after)
			.map_err(|e| format!("after `{}`: {}", c.show(), e))?;
		if let Some((lo, hi)) = bad_sel {
			let n = skipped(&out);
			if n < lo || n > hi {
				return Err(format!("`{}` reported {} skipped blocks; {} of the \
					selected blocks are invalid ({})", c.show(), n,
					if lo == hi { lo.to_string() }
					else { format!("{} to {}", lo, hi) }, out.brief()));
			}
		}
		Ok(())
	})().err();
	let mut labels = class(&w, &c, &pl);
	if n_odd > 0 { labels.push("nonsense content"); }
	if matches!(bad_sel, Some((lo, hi)) if lo == hi && lo > 0) {
		labels.push("exact skip count");
	}
	Res {
		fail,
		nontrivial: w.rows.values().any(|r| !matches!(r.st, St::Good(_))),
		labels,
		desc: format!("{}  ON  {}", c.show(), gen::describe(&w)),
		hash: hash_case(&w, input.as_ref(), &[&c]),
		..Res::default()
	}
}

/// Bounds for how many blocks must be reported as skipped.
fn bad_selected(w: &World, input: Option<&World>, c: &Cmd) -> Option<(u64, u64)> {
	if matches!(c.k, K::DeleteBlocks | K::Vacuum) {
		return None;
	}
	if matches!(c.k, K::Overlay | K::Clone) { return bad_copied(w, input, c); }
	let (mut lo, mut hi) = (0, 0);
	let filtered = (c.node.is_some() && c.k != K::Fill) || !c.nodes.is_empty()
		|| c.obj.is_some() || c.items.is_some();
	for (&k, r) in &w.rows {
		if !model::block_sel(c.area(), c.invert, pos_of(k)).0 { continue; }
		match r.st {
			St::Bad => { hi += 1; if !filtered { lo += 1 } },
			St::Gray => hi += 1,
			St::Good(_) => (),
		}
	}
	Some((lo, hi))
}

/// A malformed block which claims to be generated and of a supported version.
/// Blocks of other versions count as missing to `clone` and `overlay`.
fn malformed(r: &Row) -> bool {
	let b = &r.bytes;
	matches!(r.st, St::Bad) && b.len() >= 2 && match b[0] {
		25..=28 => b[1] & 8 == 0,
		29 => crate::ffi::zstd_decompress(&b[1..])
			.map_or(false, |d| d.0.first().map_or(false, |f| f & 8 == 0)),
		_ => false,
	}
}

fn bad_copied(w: &World, input: Option<&World>, c: &Cmd) -> Option<(u64, u64)> {
	let o = c.offset.unwrap_or([0; 3]);
	let area = c.area();
	let not_good = |r: &&Row| !matches!(r.st, St::Good(_));
	let hi = w.rows.values().chain(input.iter().flat_map(|i| i.rows.values()))
		.filter(not_good).count() as u64;
	let lo = if c.k == K::Clone || o != [0; 3] {
		// Destination blocks which cannot be written to
		let dst = area.map(|a| a.shift(o));
		w.rows.iter().filter(|(&k, r)| malformed(r)
			&& dst.map_or(true, |a| a.block_touches(pos_of(k)))).count()
	} else if let Some(a) = area {
		// Blocks which would have to be merged
		input.unwrap().rows.iter().filter(|(&k, src)| {
			let p = pos_of(k);
			let ok = |r: &Row| matches!(&r.st, St::Good(b) if b.generated());
			a.block_touches(p) && !a.block_inside(p)
				&& w.rows.get(&k).map_or(false, |dst|
					malformed(dst) && (malformed(src) || ok(src))
					|| malformed(src) && ok(dst))
		}).count()
	} else { 0 };
	Some((lo as u64, hi))
}

fn nonsense_row(s: &mut Src, cfg: &Cfg, p: V3) -> Row {
	let mut c = cfg.clone();
	c.big = 0;
	let mut b = gen::block(s, &c, p);
	match s.weighted(&[3, 3, 3, 2, 2, 2]) {
		0 => { // A node ID without a name
			let i = s.below(4096) as usize;
			b.nodes[i] = *s.pick(&[500, 65535, 4096]);
		},
		1 => { // Metadata outside the block
			let m = gen::meta(s, false, 0);
			b.meta.insert(*s.pick(&[4096, 65535, 5000]), m);
		},
		2 => b.timers.push((*s.pick(&[4096, 65535, 6000]), 1, 2)),
		3 => b.names.clear(),
		4 => { // Duplicate ID
			let id = b.names.first().map_or(0, |n| n.0);
			b.names.push((id, b"dup:dup".to_vec()));
		},
		_ => { // A name removed
			b.names.pop();
		},
	}
	let bytes = b.encode(&EncOpts::default());
	Row::classify(bytes)
}

/// Blocks compared by content.
pub fn same_content(a: &Rows, b: &Rows, what: &str) -> Result<(), String> {
	let mut keys: Vec<i64> = a.keys().chain(b.keys()).copied().collect();
	keys.sort_unstable();
	keys.dedup();
	for k in keys {
		match (a.get(&k), b.get(&k)) {
			(Some(x), Some(y)) if x == y => (),
			(Some(x), Some(y)) => match (codec::decode(x, true),
				codec::decode(y, true))
			{
				(Ok(x), Ok(y)) => if let Some(e) = codec::cmp_block(&x, &y) {
					return Err(format!("{}: block {:?}: {}", what, pos_of(k), e));
				},
				_ => return Err(format!("{}: block {:?} differs", what, pos_of(k))),
			},
			_ => return Err(format!("{}: block {:?} exists in only one result",
				what, pos_of(k))),
		}
	}
	Ok(())
}

const AREA_CMDS: [K; 9] = [K::Fill, K::ReplaceNodes, K::SetParam2, K::DeleteMeta,
	K::SetMetaVar, K::ReplaceInInv, K::DeleteObjects, K::DeleteTimers,
	K::DeleteBlocks];

fn swap_corners(s: &mut Src, c: &Cmd) -> Cmd {
	let mut d = c.clone();
	let (mut a, mut b) = (c.p1.unwrap(), c.p2.unwrap());
	for i in 0..3 {
		if s.bool() { std::mem::swap(&mut a[i], &mut b[i]); }
	}
	d.p1 = Some(b);
	d.p2 = Some(a);
	d
}

/// Selection laws, without the model: corner order, area + inverted area,
/// splitting, translation by whole blocks.
pub fn c19_area(s: &mut Src, ctx: &Ctx) -> Res {
	let cfg = Cfg { meta: 60, objs: 50, timers: 50, bad: 0, ungen: 0, big: 0,
		..Cfg::default() };
	let k = *s.pick(&AREA_CMDS);
	let mut cfg = cfg;
	cfg.dup = k == K::Fill;
	let b = gen::base(s);
	let w = if s.bool() { gen::cuboid(s, &cfg, b) } else { gen::world(s, &cfg, b) };
	let mut c = gen::cmd(s, k, &w, b);
	if c.p1.is_none() {
		let (p1, p2) = gen::corners(s, &w, b);
		c.p1 = Some(p1);
		c.p2 = Some(p2);
		c.invert = s.bool();
	}
	let law = s.below(4);
	let pl = model::plan(&w, None, &c);
	let a = c.area().unwrap();
	let mut nontrivial = pl.changed > 0;
	let mut labels = class(&w, &c, &pl);
	labels.push(["law: corner order", "law: area + inverse = everything",
		"law: splitting", "law: translation"][law as usize]);
	let fail = (|| -> Result<(), String> {
		match law {
			0 => {
				let d = swap_corners(s, &c);
				let r1 = exec(ctx, &w, None, &c)?.1;
				let r2 = exec(ctx, &w, None, &d)?.1;
				same_content(&r1, &r2, &format!("`{}` and `{}` select the same \
					area", c.show(), d.show()))
			},
			1 => { // Blockwise for deleteblocks: the straddling blocks stay.
				let mut d = c.clone();
				d.invert = !c.invert;
				setup(ctx, &w, None);
				step(ctx, &c)?;
				let r1 = step(ctx, &d)?.1;
				if k == K::DeleteBlocks {
					for key in w.rows.keys() {
						let p = pos_of(*key);
						let straddles = a.block_touches(p) && !a.block_inside(p);
						if straddles != r1.contains_key(key) {
							return Err(format!("deleteblocks inside and outside \
								{:?}: block {:?} {}", a, p, if straddles
								{ "straddles the border but was deleted" }
								else { "survived" }));
						}
					}
					return Ok(());
				}
				let mut e = c.clone();
				e.invert = false;
				if matches!(k, K::Fill) || (k == K::SetParam2 && c.node.is_none()) {
					e.p1 = Some([-31000; 3]);
					e.p2 = Some([31000; 3]);
					// Nodes beyond the limit can only be reached by inversion.
					if w.rows.keys().any(|k| pos_of(*k).iter()
						.any(|v| v.abs() >= 1937)) { nontrivial = false; return Ok(()); }
				} else {
					e.p1 = None;
					e.p2 = None;
				}
				let r2 = exec(ctx, &w, None, &e)?.1;
				same_content(&r1, &r2, &format!("`{}` followed by its inverse \
					selection, against `{}`", c.show(), e.show()))
			},
			2 => {
				if c.invert || k == K::DeleteBlocks {
					c.invert = false;
				}
				let ax = s.below(3) as usize;
				if a.lo[ax] == a.hi[ax] || k == K::DeleteBlocks {
					nontrivial = false;
					return Ok(());
				}
				let m = a.lo[ax] + s.below((a.hi[ax] - a.lo[ax]).min(200) as u64) as i64;
				let (mut c1, mut c2) = (c.clone(), c.clone());
				let (mut h1, mut l2) = (a.hi, a.lo);
				h1[ax] = m;
				l2[ax] = m + 1;
				c1.p1 = Some(a.lo); c1.p2 = Some(h1);
				c2.p1 = Some(l2); c2.p2 = Some(a.hi);
				let r1 = exec(ctx, &w, None, &c)?.1;
				setup(ctx, &w, None);
				step(ctx, &c1)?;
				let r2 = step(ctx, &c2)?.1;
				same_content(&r1, &r2, &format!("`{}` at once, against split at \
					axis {} after {}", c.show(), ax, m))
			},
			_ => {
				// Objects carry absolute positions; shift them as well.
				let t: V3 = [s.range(-40, 40), s.range(-40, 40), s.range(-40, 40)];
				let mv = |p: V3| model::add(p, [t[0] * 16, t[1] * 16, t[2] * 16]);
				let (n1, n2) = (mv(c.p1.unwrap()), mv(c.p2.unwrap()));
				let inside = |p: V3| p.iter().all(|v| v.abs() <= 31000);
				let bounds = w.rows.keys().all(|k| model::add(pos_of(*k), t).iter()
					.all(|v| v.abs() <= 1930));
				if !inside(n1) || !inside(n2) || !bounds {
					nontrivial = false;
					return Ok(());
				}
				let mut d = c.clone();
				d.p1 = Some(n1);
				d.p2 = Some(n2);
				let shift = |b: &Block| {
					let mut b = b.clone();
					for o in &mut b.objs {
						for i in 0..3 { o.pos[i] += (t[i] * 160_000) as i32; }
					}
					b
				};
				let mut w1 = World { rows: BTreeMap::new(), opts: w.opts.clone() };
				let mut w2 = w1.clone();
				for (k, r) in &w.rows {
					let mut b = r.good().unwrap().clone();
					// Which way half-way positions are rounded may depend on
					// the sign.
					b.objs.retain(|o| o.pos.iter().all(|&v|
						(v as i64 + 5000).rem_euclid(10000) != 0));
					w1.rows.insert(*k, Row { bytes: b.encode(&EncOpts::default()),
						st: St::Good(Box::new(b.clone())) });
					let b = shift(&b);
					w2.rows.insert(key_of(model::add(pos_of(*k), t)),
						Row { bytes: b.encode(&EncOpts::default()),
							st: St::Good(Box::new(b)) });
				}
				let r1 = exec(ctx, &w1, None, &c)?.1;
				let r2 = exec(ctx, &w2, None, &d)?.1;
				let mut r1s = Rows::new();
				for (k, v) in &r1 {
					let b = codec::decode(v, true).map_err(|e| format!(
						"invalid block after `{}`: {}", c.show(), e))?;
					r1s.insert(key_of(model::add(pos_of(*k), t)),
						shift(&b).encode(&EncOpts::default()));
				}
				same_content(&r1s, &r2, &format!("`{}` against the same shifted \
					by {:?} blocks", c.show(), t))
			},
		}
	})().err();
	Res {
		fail, nontrivial, labels,
		desc: format!("{}  ON  {}", c.show(), gen::describe(&w)),
		hash: hash_case(&w, None, &[&c]),
		..Res::default()
	}
}

/// The same content stored in every format version gives the same result.
pub fn c20_versions(s: &mut Src, ctx: &Ctx) -> Res {
	let cfg = Cfg { versions: &[25], meta: 60, objs: 50, timers: 50, bad: 0,
		..Cfg::default() };
	let (w, input, c) = any_case(s, &cfg, &EDITS);
	let pl = model::plan(&w, input.as_ref(), &c);
	let conv = |w: &World, pick: &mut dyn FnMut() -> u8| World {
		rows: w.rows.iter().map(|(k, r)| {
			let mut b = r.good().unwrap().clone();
			b.version = pick();
			for m in b.meta.values_mut() {
				for v in m.vars.values_mut() { v.1 = false; }
			}
			(*k, Row { bytes: b.encode(&EncOpts::default()),
				st: St::Good(Box::new(b)) })
		}).collect(),
		opts: w.opts.clone(),
	};
	let mut labels = class(&w, &c, &pl);
	let mixed = s.bool();
	if mixed { labels.push("mixed versions"); }
	let fail = (|| -> Result<(), String> {
		let mut first: Option<(Rows, u8)> = None;
		for v in [28u8, 29, 25, 27] {
			let mut pick: Box<dyn FnMut() -> u8> = if mixed && v != 28 {
				let mut r = crate::src::Rng::new(s.seed());
				Box::new(move || [25, 27, 28, 29][r.below(4) as usize])
			} else { Box::new(move || v) };
			let wv = conv(&w, &mut pick);
			let iv = input.as_ref().map(|i| conv(i, &mut pick));
			let rows = exec(ctx, &wv, iv.as_ref(), &c)?.1;
			// Normalise the version.
			let mut norm = Rows::new();
			for (k, r) in rows {
				let mut b = codec::decode(&r, true).map_err(|e| format!(
					"invalid block after `{}` on version {} blocks: {}", c.show(),
					v, e))?;
				b.version = 28;
				b.lighting = 0xFFFF;
				norm.insert(k, b.encode(&EncOpts::default()));
			}
			match &first {
				None => first = Some((norm, v)),
				Some((f, fv)) => same_content(f, &norm, &format!("`{}` on \
					version {} blocks against {}version {}", c.show(), fv,
					if mixed { "mixed, " } else { "" }, v))?,
			}
		}
		Ok(())
	})().err();
	Res {
		fail,
		nontrivial: pl.changed > 0,
		labels,
		desc: format!("{}  ON (each version)  {}", c.show(), gen::describe(&w)),
		hash: hash_case(&w, input.as_ref(), &[&c]),
		..Res::default()
	}
}

pub fn c25_report(s: &mut Src, ctx: &Ctx) -> Res {
	if s.chance(1, 100) { return crate::scale::c25_scale(s, ctx); }
	let cfg = Cfg { meta: 70, objs: 60, timers: 60, ungen: 3, bad: 3, big: 3,
		..Cfg::default() };
	let (w, _, c) = any_case(s, &cfg, &AREA_CMDS[..8]);
	let pl = model::plan(&w, None, &c);
	let fail = exec(ctx, &w, None, &c).and_then(|(out, after)| {
		check_report(&pl, &out)
			.map_err(|e| format!("after `{}`: {}", c.show(), e))?;
		// The counts are those of the changes made.
		model::verify(&w, &pl, &after)
			.map_err(|e| format!("after `{}`: {}", c.show(), e))
	}).err();
	let n: u64 = pl.report.as_ref().map_or(0, |r| r.nums.iter().sum());
	let mut labels = class(&w, &c, &pl);
	labels.push(match n { 0 => "count 0", 1..=999 => "count 1-999",
		_ => "count >= 1000" });
	Res {
		fail,
		nontrivial: n > 0,
		labels,
		desc: format!("{}  ON  {}", c.show(), gen::describe(&w)),
		hash: hash_case(&w, None, &[&c]),
		..Res::default()
	}
}

const HIST: [K; 12] = [K::Fill, K::ReplaceNodes, K::SetParam2, K::DeleteMeta,
	K::SetMetaVar, K::ReplaceInInv, K::DeleteObjects, K::DeleteTimers, K::Clone,
	K::Overlay, K::DeleteBlocks, K::Vacuum];

/// A history of commands; the model runs in lockstep.
pub fn c26_history(s: &mut Src, ctx: &Ctx) -> Res {
	let cfg = Cfg { meta: 60, objs: 50, timers: 50, max_blocks: 8, ungen: 4,
		bad: 3, ..Cfg::default() };
	let b = gen::base(s);
	let mut w = if s.bool() { gen::cuboid(s, &cfg, b) }
		else { gen::world(s, &cfg, b) };
	let w0 = w.clone();
	let input = gen::input_world(s, &cfg, &w, b);
	let max = if ctx.thorough { 20 } else { 10 };
	let mut hist: Vec<Cmd> = vec![];
	let mut changed = 0;
	setup(ctx, &w, Some(&input));
	let mut fail = None;
	s.list(2, max, 5, |s, _| {
		if fail.is_some() { return; }
		let k = *s.pick(&HIST);
		let mut c = gen::cmd(s, k, &w, b);
		if k == K::Overlay && !c.invert && s.bool() {
			c.offset = Some(gen::offset(s));
		}
		if !gen::dst_ok(&c) {
			c.offset = if k == K::Clone { Some([0, 16, 0]) } else { None };
			if !gen::dst_ok(&c) { c.offset = Some([0, -16, 0]); }
		}
		// Names can be duplicated only in ways the tool itself produced.
		let pl = model::plan(&w, Some(&input), &c);
		hist.push(c.clone());
		let r = step(ctx, &c).and_then(|(out, after)| {
			model::verify(&w, &pl, &after)?;
			check_report(&pl, &out)?;
			Ok(after)
		});
		match r {
			Ok(after) => {
				if pl.changed > 0 { changed += 1; }
				w = to_world(&after, &w.opts);
			},
			Err(e) => fail = Some(format!("step {}: after `{}`: {}", hist.len(),
				hist.iter().map(|c| c.show()).collect::<Vec<_>>().join("`, `"), e)),
		}
	});
	if fail.is_none() {
		fail = world::integrity(&ctx.env.path(MAP)).err();
	}
	let refs: Vec<&Cmd> = hist.iter().collect();
	let mut labels: Vec<&'static str> = hist.iter().map(|c| c.k.name()).collect();
	labels.sort();
	labels.dedup();
	labels.push(match changed { 0 | 1 => "0-1 effective steps",
		2..=4 => "2-4 effective steps", _ => "5+ effective steps" });
	Res {
		fail,
		nontrivial: changed >= 2,
		labels,
		desc: format!("{}  ON  {}", hist.iter().map(|c| c.show())
			.collect::<Vec<_>>().join(" ; "), gen::describe(&w0)),
		hash: hash_case(&w0, Some(&input), &refs),
		..Res::default()
	}
}

/// Algebraic laws between whole commands.
pub fn c28_laws(s: &mut Src, ctx: &Ctx) -> Res {
	let cfg = Cfg { meta: 60, objs: 50, timers: 50, bad: 0, ungen: 0,
		..Cfg::default() };
	let law = s.below(12);
	let b = gen::base(s);
	let mut w = if s.bool() { gen::cuboid(s, &cfg, b) }
		else { gen::world(s, &cfg, b) };
	let mut labels = vec![["idempotence", "rename there and back",
		"clone away and back", "overlay twice", "overlay of itself",
		"fill = replace all names", "commuting disjoint areas",
		"overlay restores a backup", "clone = overlay of a copy", "the last one wins",
		"independent commands commute", "items one by one"][law as usize]];
	let mut nontrivial = true;
	let mut desc = String::new();
	let hash = std::cell::Cell::new(hash_world(law, &w));
	let rows0: Rows = w.rows.iter().map(|(k, r)| (*k, r.bytes.clone())).collect();
	let mut note = |c: &Cmd| {
		if !desc.is_empty() { desc += " ; "; }
		desc += &c.show();
		hash.set(hash_bytes(hash.get(), c.args().join("\0").as_bytes()));
	};
	let fail = (|| -> Result<(), String> {
		match law {
			0 => {
				let k = *s.pick(&AREA_CMDS);
				let c = gen::cmd(s, k, &w, b);
				note(&c);
				if c.k == K::ReplaceNodes && c.node == c.new_node { return Ok(()); }
				nontrivial = model::plan(&w, None, &c).changed > 0;
				setup(ctx, &w, None);
				let r1 = step(ctx, &c)?.1;
				// Deleting, replacing or setting again has nothing left to do.
				if k == K::ReplaceInInv && c.new_item.is_none() && !c.delete {
					// metadata-only: also a fixpoint
				}
				let r2 = step(ctx, &c)?.1;
				same_content(&r1, &r2, &format!("`{}` once against twice", c.show()))
			},
			1 => {
				let mut c = gen::cmd(s, K::ReplaceNodes, &w, b);
				c.new_node = Some("fresh:node".into());
				let mut d = c.clone();
				d.node = c.new_node.clone();
				d.new_node = c.node.clone();
				note(&c);
				note(&d);
				nontrivial = model::plan(&w, None, &c).changed > 0;
				setup(ctx, &w, None);
				step(ctx, &c)?;
				let r = step(ctx, &d)?.1;
				same_content(&rows0, &r, &format!("`{}` and back", c.show()))
			},
			2 => {
				// To a region far away and back again.
				let (mut p1, mut p2) = gen::corners(s, &w, b);
				for i in 0..3 {
					let c = b[i] * 16;
					p1[i] = p1[i].max(c - 60).min(c + 60).max(-31000).min(31000);
					p2[i] = p2[i].max(c - 60).min(c + 60).max(-31000).min(31000);
				}
				let ax = s.below(3) as usize;
				let mut o = gen::offset(s);
				o[ax] = if b[ax] > 0 { -(300 + s.below(50) as i64) }
					else { 300 + s.below(50) as i64 };
				let mut c = Cmd::new(K::Clone);
				c.p1 = Some(p1); c.p2 = Some(p2);
				c.offset = Some(o);
				if !gen::dst_ok(&c) { nontrivial = false; return Ok(()); }
				let a = c.area().unwrap();
				let dst = a.shift(o);
				if dst.lo.iter().chain(&dst.hi).any(|v| v.abs() > 30900) {
					nontrivial = false;
					return Ok(());
				}
				// Make sure the destination exists.
				let bd = |v: i64| v.div_euclid(16);
				let mut fill_block = gen::block(s, &Cfg { big: 0, meta: 0, objs: 0,
					timers: 0, ungen: 0, odd: 0, ..cfg.clone() }, [0; 3]);
				fill_block.flags &= !8;
				let bytes = fill_block.encode(&EncOpts::default());
				for z in bd(dst.lo[2])..=bd(dst.hi[2]) {
					for y in bd(dst.lo[1])..=bd(dst.hi[1]) {
						for x in bd(dst.lo[0])..=bd(dst.hi[0]) {
							w.rows.entry(key_of([x, y, z])).or_insert(Row {
								bytes: bytes.clone(),
								st: St::Good(Box::new(fill_block.clone())) });
						}
					}
				}
				let mut f = Cmd::new(K::Fill);
				f.p1 = c.p1; f.p2 = c.p2;
				f.new_node = Some("gone:gone".into());
				let mut m = Cmd::new(K::DeleteMeta);
				m.p1 = c.p1; m.p2 = c.p2;
				let mut p = Cmd::new(K::SetParam2);
				p.p1 = c.p1; p.p2 = c.p2;
				p.param2 = Some(1);
				let mut back = Cmd::new(K::Clone);
				back.p1 = Some(dst.lo); back.p2 = Some(dst.hi);
				back.offset = Some([-o[0], -o[1], -o[2]]);
				for c in [&c, &f, &m, &p, &back] { note(c); }
				nontrivial = model::plan(&w, None, &f).changed > 0;
				setup(ctx, &w, None);
				step(ctx, &c)?;
				step(ctx, &f)?;
				step(ctx, &m)?;
				step(ctx, &p)?;
				let r = step(ctx, &back)?.1;
				let r: Rows = r.into_iter().filter(|(k, _)| rows0.contains_key(k))
					.collect();
				// Rows of the original world that were themselves destinations
				// are excluded by the distance.
				same_content(&rows0, &r, "clone away, wipe, clone back")
			},
			3 => {
				let input = gen::input_world(s, &cfg, &w, b);
				let mut c = gen::cmd(s, K::Overlay, &w, b);
				if !c.invert && s.bool() { c.offset = Some(gen::offset(s)); }
				if !gen::dst_ok(&c) { c.offset = None; }
				note(&c);
				hash.set(hash_world(hash.get(), &input));
				nontrivial = model::plan(&w, Some(&input), &c).changed > 0;
				setup(ctx, &w, Some(&input));
				let r1 = step(ctx, &c)?.1;
				let r2 = step(ctx, &c)?.1;
				same_content(&r1, &r2, &format!("`{}` once against twice", c.show()))
			},
			4 => {
				let mut c = gen::cmd(s, K::Overlay, &w, b);
				c.offset = None;
				note(&c);
				setup(ctx, &w, Some(&w));
				let r = step(ctx, &c)?.1;
				same_content(&rows0, &r, &format!("`{}` with the map itself",
					c.show()))
			},
			5 => {
				// Replacing every name one by one equals filling.
				let mut names: Vec<Vec<u8>> = w.rows.values()
					.flat_map(|r| r.good().unwrap().names.iter().map(|n| n.1.clone()))
					.collect();
				names.sort();
				names.dedup();
				let ok = |n: &Vec<u8>| gen::NAMES.iter().any(|x| x.as_bytes() == &n[..]);
				if names.len() > 12 || !names.iter().all(ok) {
					nontrivial = false;
					return Ok(());
				}
				let mut f = gen::cmd(s, K::Fill, &w, b);
				f.new_node = Some("all:same".into());
				note(&f);
				nontrivial = model::plan(&w, None, &f).changed > 0;
				let r1 = exec(ctx, &w, None, &f)?.1;
				setup(ctx, &w, None);
				let mut r2 = rows0.clone();
				for n in names {
					let mut c = Cmd::new(K::ReplaceNodes);
					c.p1 = f.p1; c.p2 = f.p2; c.invert = f.invert;
					c.node = Some(String::from_utf8(n).unwrap());
					c.new_node = f.new_node.clone();
					note(&c);
					r2 = step(ctx, &c)?.1;
				}
				same_content(&r1, &r2, &format!("`{}` against replacing each name",
					f.show()))
			},
			6 => {
				let k1 = *s.pick(&[K::Fill, K::SetParam2, K::ReplaceNodes,
					K::DeleteMeta, K::DeleteTimers]);
				let k2 = *s.pick(&[K::Fill, K::SetParam2, K::ReplaceNodes,
					K::SetMetaVar, K::ReplaceInInv]);
				let mut c = gen::cmd(s, k1, &w, b);
				let mut d = gen::cmd(s, k2, &w, b);
				let (p1, p2) = gen::corners(s, &w, b);
				c.p1 = Some(p1); c.p2 = Some(p2); c.invert = false;
				d.p1 = Some(p1); d.p2 = Some(p2); d.invert = true;
				note(&c);
				note(&d);
				nontrivial = model::plan(&w, None, &c).changed > 0
					&& model::plan(&w, None, &d).changed > 0;
				setup(ctx, &w, None);
				step(ctx, &c)?;
				let r1 = step(ctx, &d)?.1;
				setup(ctx, &w, None);
				step(ctx, &d)?;
				let r2 = step(ctx, &c)?.1;
				same_content(&r1, &r2, &format!("order of `{}` and `{}`, which \
					select disjoint parts", c.show(), d.show()))
			},
			8 => {
				let mut c = gen::cmd(s, K::Clone, &w, b);
				if !gen::dst_ok(&c) {
					c.offset = Some([0, if b[1] > 0 { -16 } else { 16 }, 0]);
				}
				if !gen::dst_ok(&c) || c.offset == Some([0; 3]) {
					nontrivial = false;
					return Ok(());
				}
				let mut d = c.clone();
				d.k = K::Overlay;
				d.input_map = Some(IN.into());
				note(&c);
				note(&d);
				nontrivial = model::plan(&w, None, &c).changed > 0;
				let r1 = exec(ctx, &w, None, &c)?.1;
				let r2 = exec(ctx, &w, Some(&w), &d)?.1;
				same_content(&r1, &r2, &format!("`{}` against overlay of a copy",
					c.show()))
			},
			9 => {
				// What the first one wrote does not show.
				let k = *s.pick(&[K::Fill, K::SetParam2, K::SetMetaVar]);
				let c = gen::cmd(s, k, &w, b);
				let mut d = c.clone();
				match k {
					K::Fill => d.new_node = Some("first:one".into()),
					K::SetParam2 => d.param2 = Some(s.below(256) as u8),
					_ => { d.delete = false; d.value = Some("first".into()); },
				}
				note(&d);
				note(&c);
				nontrivial = model::plan(&w, None, &c).changed > 0;
				let r1 = exec(ctx, &w, None, &c)?.1;
				setup(ctx, &w, None);
				step(ctx, &d)?;
				let r2 = step(ctx, &c)?.1;
				same_content(&r1, &r2, &format!("`{}` after `{}`, against alone",
					c.show(), d.show()))
			},
			10 => {
				let groups: [&[K]; 5] = [&[K::Fill, K::ReplaceNodes], &[K::SetParam2],
					&[K::DeleteMeta, K::SetMetaVar, K::ReplaceInInv],
					&[K::DeleteObjects], &[K::DeleteTimers]];
				let i = s.below(5) as usize;
				let j = (i + 1 + s.below(4) as usize) % 5;
				let mut pair = vec![];
				for g in [i, j] {
					let k = *s.pick(groups[g]);
					let mut c = gen::cmd(s, k, &w, b);
					if k != K::ReplaceNodes { c.node = None; }
					c.nodes.clear();
					if k == K::SetParam2 && c.p1.is_none() {
						let (p1, p2) = gen::corners(s, &w, b);
						c.p1 = Some(p1);
						c.p2 = Some(p2);
					}
					note(&c);
					pair.push(c);
				}
				nontrivial = pair.iter().all(|c|
					model::plan(&w, None, c).changed > 0);
				setup(ctx, &w, None);
				step(ctx, &pair[0])?;
				let r1 = step(ctx, &pair[1])?.1;
				setup(ctx, &w, None);
				step(ctx, &pair[1])?;
				let r2 = step(ctx, &pair[0])?.1;
				same_content(&r1, &r2, &format!("order of `{}` and `{}`",
					pair[0].show(), pair[1].show()))
			},
			11 => {
				let mut c = gen::cmd(s, K::DeleteObjects, &w, b);
				let n = 1 + s.below(4) as usize;
				let mut items: Vec<String> = vec![];
				for _ in 0..n {
					let d = gen::cmd(s, K::DeleteObjects, &w, b);
					items.extend(d.items.unwrap_or_default().into_iter().take(3));
				}
				items.truncate(8);
				if items.is_empty() { nontrivial = false; return Ok(()); }
				c.obj = None;
				c.items = Some(items.clone());
				note(&c);
				nontrivial = model::plan(&w, None, &c).changed > 0;
				let r1 = exec(ctx, &w, None, &c)?.1;
				setup(ctx, &w, None);
				let mut r2 = rows0.clone();
				for i in items {
					let mut d = c.clone();
					d.items = Some(vec![i]);
					note(&d);
					r2 = step(ctx, &d)?.1;
				}
				same_content(&r1, &r2, &format!("`{}` against one item at a time",
					c.show()))
			},
			_ => {
				// A backup restores everything after arbitrary damage.
				setup(ctx, &w, Some(&w));
				let ks = [K::Fill, K::ReplaceNodes, K::DeleteMeta, K::DeleteBlocks,
					K::DeleteObjects, K::SetParam2];
				let mut cur = w.clone();
				let mut any = false;
				for _ in 0..1 + s.below(3) {
					let k = *s.pick(&ks);
					let c = gen::cmd(s, k, &cur, b);
					note(&c);
					any |= model::plan(&cur, None, &c).changed > 0;
					let r = step(ctx, &c)?.1;
					cur = to_world(&r, &w.opts);
				}
				nontrivial = any;
				let mut c = Cmd::new(K::Overlay);
				c.input_map = Some(IN.into());
				note(&c);
				let r = step(ctx, &c)?.1;
				same_content(&rows0, &r, "overlay of a full backup")
			},
		}
	})().err();
	if !nontrivial { labels.push("trivial"); }
	Res {
		fail, nontrivial, labels,
		desc: format!("{}  ON  {}", desc, gen::describe(&w)),
		hash: hash.get(),
		..Res::default()
	}
}

#[allow(dead_code)]
pub fn uses(_: &Exp) {}
