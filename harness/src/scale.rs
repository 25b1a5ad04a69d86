//! Maps of more than a thousand blocks: larger than any cache in the program.

use std::collections::BTreeMap;
use crate::checks::*;
use crate::codec::{Block, EncOpts, Meta, Obj, END_INV};
use crate::gen;
use crate::model::{Cmd, K};
use crate::src::{Rng, Src};
use crate::world::{DbOpts, Row, St, World, V3, key_of, pos_of};

/// A cheap block that differs from every other one.
fn marked(r: &mut Rng, n: u32, version: u8, meta: bool) -> Block {
	let names: Vec<(u16, Vec<u8>)> = vec![
		(0, b"air".to_vec()),
		(1, format!("m:b{}", n).into_bytes()),
		(2, format!("m:g{}", n % 7).into_bytes()),
	];
	let mut nodes = vec![0u16; 4096];
	for x in nodes.iter_mut().step_by(1 + (n % 5) as usize) { *x = 1; }
	for _ in 0..12 { nodes[r.below(4096) as usize] = 2; }
	nodes[0] = 1;
	nodes[4095] = 1;
	nodes[1] = 0;
	nodes[2] = 2;
	let mut p2 = vec![(n % 251) as u8; 4096];
	p2[r.below(4096) as usize] = (n / 251) as u8;
	let mut b = Block { version, flags: 0, lighting: 0xFFFF, timestamp: n,
		names, nodes, p1: vec![(n % 16) as u8; 4096], p2, meta: BTreeMap::new(),
		objs: vec![], timers: vec![] };
	if meta {
		for i in [0u16, r.below(4096) as u16] {
			b.meta.insert(i, Meta { vars: [(b"id".to_vec(),
				(n.to_string().into_bytes(), false))].into_iter().collect(),
				inv: END_INV.to_vec() });
		}
	}
	b
}

fn row_of(b: Block) -> Row {
	let o = EncOpts { level: 1, ..EncOpts::default() };
	Row { bytes: b.encode(&o), st: St::Good(Box::new(b)) }
}

/// Box of blocks with the given extent, centred so that all fits in the map.
fn fit(s: &mut Src, d: V3) -> V3 {
	let mut lo = [0; 3];
	for i in 0..3 {
		let (a, b) = (-1936, 1936 - d[i]);
		lo[i] = match s.below(4) {
			0 => (-d[i] / 2).max(a).min(b),
			1 => 0.max(a).min(b),
			2 => (-d[i]).max(a).min(b),
			_ => s.range(a, b),
		};
	}
	lo
}

/// Many more rows than fit in 16 bits, nearly all of them unreadable (and
/// tiny), with some mapblocks among them.
fn vast(s: &mut Src, ctx: &Ctx) -> Res {
	let k = *s.pick(&[K::Fill, K::ReplaceNodes, K::SetParam2, K::DeleteMeta,
		K::DeleteBlocks, K::Clone, K::Overlay]);
	let n = 17_000 + s.below(if ctx.thorough { 150_000 } else { 60_000 }) as i64;
	let n = s.num(1000, 100_000).map_or(n, |v| v + s.below(100) as i64);
	let d: V3 = match s.below(4) {
		0 => [3800, 2, n / 7600 + 1],
		1 => [n / 7600 + 1, 3800, 2],
		2 => [2, n / 7600 + 1, 3800],
		_ => { let a = 25 + s.below(20) as i64; [a, a, n / (a * a) + 1] },
	};
	let lo = fit(s, d);
	let n = d[0] * d[1] * d[2];
	let cell = |i: i64| [lo[0] + i % d[0], lo[1] + i / d[0] % d[1],
		lo[2] + i / d[0] / d[1]];
	let mut r = Rng::new(s.seed());
	let junk: Vec<Row> = [&[24u8, 0, 1][..], &[30, 1], &[], &[28, 0, 0],
		&[29, 5, 5, 5]].iter().map(|b| Row::classify(b.to_vec()))
		.filter(|r| matches!(r.st, St::Bad)).collect();
	let mut mk = |tag: u32, good: &[i64]| {
		let mut rows: BTreeMap<i64, Row> = BTreeMap::new();
		for i in 0..n {
			if r.below(10) > 0 {
				rows.insert(key_of(cell(i)),
					junk[r.below(junk.len() as u64) as usize].clone());
			}
		}
		for (j, &i) in good.iter().enumerate() {
			let b = marked(&mut r, tag + j as u32, 25 + [0, 2, 3, 4][j % 4], true);
			rows.insert(key_of(cell(i)), row_of(b));
		}
		World { rows, opts: DbOpts { shuffle: r.next() & 1, ..DbOpts::default() } }
	};
	let mut good: Vec<i64> = vec![0, n - 1];
	for _ in 0..10 + s.below(30) { good.push(s.below(n as u64) as i64); }
	for i in 0..good.len() { if good[i] + 1 < n { good.push(good[i] + 1); } }
	let w = mk(0, &good);
	let input = if k == K::Overlay { Some(mk(100_000, &good)) } else { None };
	let mut c = Cmd::new(k);
	if k == K::Overlay { c.input_map = Some(IN.into()); }
	let mut labels = vec![k.name(), "17000 rows or more"];
	if n > 65_536 { labels.push("more rows than 16 bits count"); }
	let at = if s.chance(1, 3) { cell(n - 1) } else { cell(*s.pick(&good)) };
	if s.chance(1, 3) || (k == K::Clone && s.bool()) {
		// Around one of them.
		let e = s.range(0, 2);
		let f = *s.pick(&[0i64, 0, 3, 13]);
		c.p1 = Some(at.map(|v| ((v - e) * 16 + f).max(-31000)));
		c.p2 = Some(at.map(|v| ((v + e) * 16 + 15 - f / 2).min(31000)));
		labels.push("small area");
	} else if s.bool() || matches!(k, K::DeleteBlocks | K::Fill | K::Clone) {
		c.p1 = Some(lo.map(|v| v * 16));
		let mut p2 = [0; 3];
		for i in 0..3 { p2[i] = (lo[i] + d[i]) * 16 - 1 - s.range(0, 20); }
		c.p2 = Some(p2);
		labels.push("large area");
	} else {
		labels.push("no area");
	}
	c.invert = c.p1.is_some() && k != K::Clone && s.chance(1, 3);
	match k {
		K::Fill => c.new_node = Some("f:f".into()),
		K::ReplaceNodes => {
			c.node = Some("m:g3".into());
			c.new_node = Some("f:f".into());
		},
		K::SetParam2 => {
			c.param2 = Some(252);
			c.node = Some("m:g3".into());
		},
		K::Clone => {
			let o = *s.pick(&[[16i64, 0, 0], [-16, 0, 0], [1, 0, 0], [0, 0, 7]]);
			c.offset = Some(o);
			if !gen::dst_ok(&c) { c.offset = Some(o.map(|v| -v)); }
		},
		_ => (),
	}
	let mut res = run_report(ctx, &w, input.as_ref(), &c);
	res.labels = labels;
	res.desc = format!("{}  ON  {} rows, {} of them readable, box {:?} from {:?}",
		c.show(), w.rows.len(), w.rows.values().filter(|r| r.good().is_some())
		.count(), d, lo);
	res
}

/// More than 65535 entries of some kind, many in each mapblock.
fn dense(s: &mut Src, ctx: &Ctx) -> Res {
	let k = *s.pick(&[K::DeleteTimers, K::DeleteMeta, K::SetMetaVar,
		K::ReplaceInInv, K::DeleteObjects, K::ReplaceNodes]);
	let n = 17 + s.below(6) as usize;
	let mut r = Rng::new(s.seed());
	let pool: Vec<Row> = (0..3).map(|i| {
		let mut b = marked(&mut r, i, [25, 28, 29][i as usize], false);
		let id = b.names.iter().map(|n| n.0).max().unwrap() + 1;
		b.names.push((id, b"m:dense".to_vec()));
		for x in b.nodes.iter_mut().skip(50) { *x = id; }
		let all = 4090 + r.below(7) as u16;
		match k {
			K::DeleteTimers => b.timers = (0..all).map(|i| (i, 5, 1)).collect(),
			K::DeleteObjects => b.objs = (0..all).map(|i| Obj { ty: 7,
				pos: [i as i32 % 16 * 10_000, i as i32 / 256 * 10_000, 0],
				data: b"\x01\x00\x03m:o\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\
					\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00".to_vec() })
				.collect(),
			K::ReplaceNodes => (),
			_ => b.meta = (0..all).map(|i| (i, Meta {
				vars: [(b"v".to_vec(), (b"x".to_vec(), false))].into_iter().collect(),
				inv: b"List main 3\nWidth 0\nItem m:i 5\nItem m:i\nEmpty\n\
					EndInventoryList\nEndInventory\n".to_vec() })).collect(),
		}
		row_of(b)
	}).collect();
	let at = fit(s, [n as i64, 1, 1]);
	let w = World {
		rows: (0..n).map(|i| (key_of([at[0] + i as i64, at[1], at[2]]),
			pool[i % 3].clone())).collect(),
		opts: DbOpts::default(),
	};
	let mut c = Cmd::new(k);
	match k {
		K::SetMetaVar => { c.key = Some("v".into()); c.value = Some("y".into()); },
		K::ReplaceInInv => {
			c.item = Some("m:i".into());
			c.new_item = Some("m:j".into());
		},
		K::ReplaceNodes => {
			c.node = Some("m:dense".into());
			c.new_node = Some("m:other".into());
		},
		K::DeleteObjects if s.bool() => c.obj = Some("m:o".into()),
		K::DeleteTimers | K::DeleteMeta if s.bool() => c.node = Some("m:dense".into()),
		_ => (),
	}
	if s.chance(1, 3) {
		c.p1 = Some(at.map(|v| v * 16));
		c.p2 = Some([at[0] * 16 + n as i64 * 16 - 2, at[1] * 16 + 15, at[2] * 16 + 15]);
	}
	let mut res = run_report(ctx, &w, None, &c);
	res.labels = vec![k.name(), "more than 65535 entries"];
	res.desc = format!("{}  ON  {} blocks with some 4090 entries each", c.show(), n);
	res
}

/// Counts of more than a million.
pub fn c25_scale(s: &mut Src, ctx: &Ctx) -> Res {
	if s.chance(1, 3) { return dense(s, ctx); }
	let k = *s.pick(&[K::Fill, K::Fill, K::ReplaceNodes, K::SetParam2,
		K::DeleteMeta]);
	let n = *s.pick(&[240u32, 250, 300, 600, 1200]) + s.below(20) as u32;
	let mut r = Rng::new(s.seed());
	let w = World {
		rows: (0..n).map(|i| (key_of([i as i64 % 40, 3, i as i64 / 40]),
			row_of(marked(&mut r, if k == K::ReplaceNodes { i % 3 } else { i }, 28 +
			(i % 2) as u8, k == K::DeleteMeta)))).collect(),
		opts: DbOpts::default(),
	};
	let mut c = Cmd::new(k);
	match k {
		K::Fill => c.new_node = Some("f:f".into()),
		K::ReplaceNodes => {
			c.node = Some("m:b1".into());
			c.new_node = Some("air".into());
		},
		K::SetParam2 => c.param2 = Some(252),
		_ => (),
	}
	if s.bool() || matches!(k, K::Fill | K::SetParam2) {
		c.p1 = Some([s.range(0, 40), 0, s.range(0, 40)]);
		c.p2 = Some([s.range(600, 700), 100, s.range(400, 500)]);
		c.invert = s.chance(1, 5);
		if c.invert { c.p2 = Some([100, 200, 100]); }
	}
	let mut res = run_report(ctx, &w, None, &c);
	res.labels = vec![k.name(), "more than 200 blocks"];
	res.desc = format!("{}  ON  {} blocks", c.show(), n);
	res
}

pub fn c13_scale(s: &mut Src, ctx: &Ctx) -> Res {
	if s.chance(1, 12) { return vast(s, ctx); }
	if s.chance(1, 12) { return dense(s, ctx); }
	let k = match s.weighted(&[6, 2, 1]) {
		0 => K::Clone,
		1 => K::Overlay,
		_ => *s.pick(&[K::Fill, K::ReplaceNodes, K::DeleteMeta, K::SetParam2,
			K::DeleteBlocks]),
	};
	let big = if ctx.thorough { 3600 } else { 2300 };
	let n = 1150 + s.below(big - 1150) as i64;
	let shape = s.below(14);
	let big_n = s.chance(1, if ctx.thorough { 12 } else { 40 });
	let n = if big_n { 5000 + s.below(4500) as i64 } else { n };
	let n = s.num(100, 9500).map_or(n, |v| v + s.below(40) as i64);
	// Two layers with more blocks each than any cache holds.
	let l = n.min(3600);
	let (h, q) = (l.max(2120) / 2, 33 + s.below(3) as i64);
	let d: V3 = match shape {
		7 => [h, 1, 2],
		8 => [h, 2, 1],
		9 => [1, h, 2],
		10 => [q, q, 2],
		11 => [q, 2, q],
		12 => [2, q, q],
		13 => *s.pick(&[[2, 1, h], [1, 2, h], [2, h, 1]]),
		0 => [1, 1, l],
		1 => [l, 1, 1],
		2 => [1, l, 1],
		3 => { let a = 30 + s.below(20) as i64; [a, n / a + 1, 1] },
		4 => { let a = 30 + s.below(20) as i64; [a, 1, n / a + 1] },
		5 => { let a = 30 + s.below(20) as i64; [1, a, n / a + 1] },
		_ => { let a = 10 + s.below(5) as i64; [a, a, n / (a * a) + 1] },
	};
	let lo = fit(s, d);
	let sparse = s.chance(1, 4);
	let meta = s.chance(1, 3);
	let vers: Vec<u8> = match s.below(3) {
		0 => vec![29], 1 => vec![28], _ => vec![25, 27, 28, 29] };
	let mut r = Rng::new(s.seed());
	let mut cells = vec![];
	for z in 0..d[2] { for y in 0..d[1] { for x in 0..d[0] {
		cells.push([lo[0] + x, lo[1] + y, lo[2] + z]);
	} } }
	let mk = |tag: u32, keep: u64, r: &mut Rng| World {
		rows: cells.iter().enumerate().filter_map(|(i, p)| {
			if sparse && r.below(100) >= keep { return None; }
			let v = vers[r.below(vers.len() as u64) as usize];
			Some((key_of(*p), row_of(marked(r, tag + i as u32, v, meta))))
		}).collect(),
		opts: DbOpts { shuffle: r.next() & 1, ..DbOpts::default() },
	};
	let w = mk(0, 85, &mut r);
	let input = if k == K::Overlay { Some(mk(100_000, 85, &mut r)) } else { None };
	// Corners: the whole box, or cut somewhere.
	let mut p1 = lo.map(|v| v * 16);
	let mut p2 = [0; 3];
	for i in 0..3 { p2[i] = (lo[i] + d[i]) * 16 - 1; }
	for i in 0..3 {
		match s.below(4) {
			0 => p1[i] += s.below(20).min((d[i] * 16 - 1) as u64 / 3) as i64,
			1 => p2[i] -= s.below(20).min((d[i] * 16 - 1) as u64 / 3) as i64,
			2 => { p1[i] -= 5; p2[i] += 9; },
			_ => (),
		}
		p1[i] = p1[i].max(-31000);
		p2[i] = p2[i].min(31000);
	}
	let mut c = Cmd::new(k);
	if k == K::Overlay { c.input_map = Some(IN.into()); }
	c.p1 = Some(p1);
	c.p2 = Some(p2);
	let mut labels = vec![k.name(), ["z line", "x line", "y line", "xy plane",
		"xz plane", "yz plane", "cuboid", "two layers", "two layers",
		"two layers", "two layers", "two layers", "two layers", "two layers"]
		[shape as usize]];
	if big_n { labels.push("5000 blocks or more"); }
	if sparse { labels.push("sparse"); }
	match k {
		K::Clone | K::Overlay => {
			let mut o = [0i64; 3];
			let dir = s.weighted(&[3, 3, 2]);
			let small = s.chance(1, if shape >= 7 { 2 } else { 5 });
			for i in 0..3 {
				let sign = if dir == 0 { 1 } else if dir == 1 { -1 }
					else if s.bool() { 1 } else { -1 };
				if small {
					// Less than a block, mostly across the layers.
					if d[i] == 2 || s.chance(1, 3) {
						o[i] = sign * *s.pick(&[1, 15, 8, 14, 2, 5]);
					}
					continue;
				}
				let blocks = match s.weighted(&[3, 3, 2, 1]) {
					0 => d[i] / 2,
					1 => if d[i] > 1 { 1 + s.below((d[i] - 1) as u64) as i64 } else { 0 },
					2 => if d[i] > 1 { 1 } else { 0 },
					_ => 0,
				};
				let node = match s.below(3) { 0 => s.range(0, 15), _ => 0 };
				o[i] = sign * (blocks * 16 + node);
			}
			if o == [0; 3] {
				let ax = (0..3).max_by_key(|&i| d[i]).unwrap();
				o[ax] = if small { 7 } else { d[ax] / 2 * 16 };
			}
			if small { labels.push("offset below a block"); }
			c.offset = Some(o);
			if !gen::dst_ok(&c) { c.offset = Some(o.map(|v| -v)); }
			if o.iter().all(|v| v % 16 == 0) { labels.push("block-aligned offset"); }
			labels.push(if o.iter().all(|&v| v >= 0) { "offset >= 0" }
				else if o.iter().all(|&v| v <= 0) { "offset <= 0" }
				else { "mixed offset" });
		},
		K::Fill => { c.new_node = Some("f:f".into()); c.invert = s.chance(1, 3); },
		K::ReplaceNodes => {
			c.node = Some("m:g3".into());
			c.new_node = Some("f:f".into());
			c.invert = s.chance(1, 3);
		},
		K::SetParam2 => {
			c.param2 = Some(252);
			c.node = Some("m:g3".into());
			c.invert = s.chance(1, 3);
		},
		_ => c.invert = s.chance(1, 3),
	}
	let mut res = run_report(ctx, &w, input.as_ref(), &c);
	labels.extend(res.labels.iter().filter(|l| l.starts_with("partly")
		|| l.starts_with('v')));
	res.labels = labels;
	let first = w.rows.keys().next().copied().unwrap_or(0);
	res.desc = format!("{}  ON  {} blocks, box {:?} from {:?}{}", c.show(),
		w.rows.len(), d, lo, if sparse { ", sparse" } else { "" });
	let _ = pos_of(first);
	res
}
