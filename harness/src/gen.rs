//! Generators: mapblocks, worlds, areas and commands.

use std::collections::BTreeMap;
use crate::codec::{Block, EncOpts, Meta, Obj, s16, s32, END_INV};
use crate::model::{Cmd, K, Area};
use crate::src::{Rng, Src};
use crate::world::{DbOpts, Row, St, World, V3, key_of, pos_of};

/// Names that are valid on the command line.
pub const NAMES: [&str; 20] = ["air", "default:stone", "default:dirt",
	"default:stone_with_coal", "default:ston", "a:b", "aa:aaaa", "aa:aaaaaaaa",
	"default:chest", "default:sign_wall", "ignore", "default:dirt_with_grass",
	"mod_1:Node_2", "x:", "a:bb", "b:a", "efault:stone", "0:0", "_:_",
	"default:cobble"];
/// Names that can occur in a map but not on the command line.
pub const ODD_NAMES: [&[u8]; 7] = [b"bad name", b"\xff\xfe:q", b"", b"UPPER:x",
	b"default:stone ", b"noprefix", b"default:stone\n"];

#[derive(Clone)]
pub struct Cfg {
	pub versions: &'static [u8],
	pub max_blocks: usize,
	pub avg_blocks: usize,
	/// Percent chances.
	pub meta: u64,
	pub objs: u64,
	pub timers: u64,
	pub big: u64,
	pub ungen: u64,
	pub bad: u64,
	pub odd: u64,
	/// Several IDs may share a name.
	pub dup: bool,
	/// Percent of objects that are dropped items.
	pub items: u64,
}

pub const VERS: &[u8] = &[28, 29, 25, 27];

impl Default for Cfg {
	fn default() -> Self {
		Cfg { versions: VERS, max_blocks: 10, avg_blocks: 3, meta: 35, objs: 25,
			timers: 25, big: 2, ungen: 6, bad: 4, odd: 15, dup: false, items: 40 }
	}
}

pub fn rand_bytes(seed: u64, n: usize) -> Vec<u8> {
	let mut v = vec![0; n];
	Rng::new(seed).fill(&mut v);
	v
}

/// Something before or after a word.
fn affix(s: &mut Src, w: Vec<u8>) -> Vec<u8> {
	match s.below(4) {
		0 | 1 => w,
		2 => [&w[..], b"q"].concat(),
		_ => [b"q", &w[..]].concat(),
	}
}

/// A value for a string-like field, any bytes.
pub fn text(s: &mut Src, big: u64) -> Vec<u8> {
	if let Some(n) = s.len(100_000) { return vec![b'd'; n]; }
	if let Some(w) = s.word() { return affix(s, w); }
	match s.weighted(&[30, 30, 10, 10, 6, 6, 8 * big]) {
		0 => b"v".to_vec(),
		1 => s.pick(&[&b"Test Chest"[..], b"singleplayer", b"formspec",
			b"EndInventory\n", b"list[context;main;0,0;4,1;]", b"infotext",
			b"\x00\x01\x02", b"default:stone", b"Item default:stone 1\n",
			b"return {}"]).to_vec(),
		2 => b"".to_vec(),
		3 => { let n = s.usize_to(40); rand_bytes(s.seed(), n) },
		4 => vec![b'x'; s.usize_to(5000)],
		5 => { let n = s.usize_to(6000); rand_bytes(s.seed(), n) },
		_ => {
			let n = if s.chance(1, 120) { *s.pick(&[1_100_000, 4_300_000]) }
				else { *s.pick(&[33_000, 70_000, 40_000, 200_000]) };
			rand_bytes(s.seed(), n)
		},
	}
}

pub const KEYS: [&[u8]; 10] = [b"infotext", b"formspec", b"owner", b"text",
	b"info", b"infotexts", b"", b"\xffkey", b"a key", b"\xc3\xa9"];

fn item_line(s: &mut Src, out: &mut Vec<u8>) {
	if s.chance(1, 4) {
		out.extend_from_slice(if s.chance(1, 6) { b"Keep\n" } else { b"Empty\n" });
		return;
	}
	out.extend_from_slice(b"Item ");
	let word = s.word_name();
	if let Some(w) = word {
		out.extend_from_slice(w.as_bytes());
	} else if let Some(n) = s.len(3000) {
		out.extend_from_slice(b"long:");
		out.extend(vec![b'i'; n]);
	} else if s.chance(1, 12) {
		out.extend_from_slice(s.pick(&[&b"\"odd name\""[..], b"noprefix", b"Item",
			b"X:y", b"Empty"]));
	} else if s.chance(1, 60) {
		out.extend_from_slice(b"long:");
		out.extend(vec![b'i'; *s.pick(&[123usize, 300, 2000])]);
	} else {
		out.extend_from_slice(item_name(s).as_bytes());
	}
	if let Some(n) = s.len(65_535) {
		let wear = s.len(65_535).unwrap_or(0);
		out.extend_from_slice(format!(" {} {}", n, wear).as_bytes());
		if s.bool() {
			let v = text(s, 0);
			out.push(b' ');
			out.extend(v.iter().map(|&c| if c == b'\n' { b'n' } else { c }));
			out.push(b'"');
		}
		out.push(b'\n');
		return;
	}
	match s.weighted(&[4, 3, 2, 1, 3, 1]) {
		0 => (),
		1 => out.extend_from_slice(format!(" {}", s.pick(&[2, 99, 1, 65535, 0]))
			.as_bytes()),
		2 => out.extend_from_slice(format!(" {} {}", s.pick(&[1, 2]),
			s.pick(&[300, 65535, 1, 10])).as_bytes()),
		3 => out.extend_from_slice(b" 1 0"),
		4 => {
			out.extend_from_slice(format!(" {} {} ", s.pick(&[1, 1, 7]),
				s.pick(&[0, 0, 1200])).as_bytes());
			out.extend_from_slice(s.pick(&[&b"meta"[..],
				b"\"\\u0001desc\\u0002a b  c\\u0003\"",
				b"\x01color\x02#FF00FF\x03", b"default:stone 1 0 x",
				b"\"EndInventory\\n\"", b"  two spaces", b"\xff\xfe",
				b"xEndInventory", b"Item a:b 3"]));
		},
		_ => {
			out.extend_from_slice(b" 1 0 \"");
			let n = match s.weighted(&[40, 8, 1]) { 0 => s.usize_to(300),
				1 => s.usize_to(5000), _ => 70_000 };
			let mut b = rand_bytes(s.seed(), n);
			for c in &mut b {
				if *c == b'\n' { *c = b'n' }
			}
			out.extend_from_slice(&b);
			out.push(b'"');
		},
	}
	out.push(b'\n');
}

pub fn item_name(s: &mut Src) -> String {
	if let Some(w) = s.word_name() { return w; }
	s.pick(&["default:stone", "default:dirt", "a:b", "default:stone_with_coal",
		"aa:aaaa", "bucket:bucket_lava", "default:Stone", "default:cobble",
		"a:bb", "default:ston"]).to_string()
}

/// Mostly an item that occurs in the world.
fn world_item(s: &mut Src, w: &World, in_inv: bool) -> String {
	let mut v: Vec<String> = vec![];
	let mut push = |n: &[u8]| if valid_arg_name(n) && n != b"air" && n != b"ignore" {
		v.push(String::from_utf8(n.to_vec()).unwrap());
	};
	for b in w.rows.values().filter_map(|r| r.good()) {
		if in_inv {
			for m in b.meta.values().take(8) {
				for l in m.inv.split(|&c| c == b'\n') {
					let mut f = l.split(|&c| c == b' ');
					if f.next() == Some(b"Item") {
						if let Some(n) = f.next() { push(n); }
					}
				}
			}
		} else {
			for o in b.objs.iter().take(12) {
				if let Some((n, d)) = crate::model::lua_entity(o) {
					if n == b"__builtin:item" {
						push(&crate::model::dropped_item_name(&d));
					}
				}
			}
		}
	}
	v.sort();
	if v.is_empty() || s.chance(1, 4) { item_name(s) } else { s.pick(&v).clone() }
}

pub fn inventory(s: &mut Src) -> Vec<u8> {
	if s.chance(1, 2) {
		return END_INV.to_vec();
	}
	let mut out = vec![];
	s.list(1, 3, 1, |s, _| {
		let lines = s.list(0, 12, 3, |s, _| {
			let mut l = vec![];
			item_line(s, &mut l);
			l
		});
		let mut lines = lines;
		if let (false, Some(n)) = (lines.is_empty(), s.len(4500)) {
			for i in 0..n { lines.push(lines[i].clone()); }
		} else if !lines.is_empty() && s.chance(1, 80) {
			let n = *s.pick(&[257usize, 1030, 4500]);
			for i in 0..n { lines.push(lines[i].clone()); }
		}
		out.extend_from_slice(format!("List {} {}\nWidth {}\n",
			s.pick(&["main", "src", "dst", "Item", "default:stone", "fuel"]),
			lines.len(), s.pick(&[0, 8])).as_bytes());
		for l in lines {
			out.extend_from_slice(&l);
		}
		out.extend_from_slice(b"EndInventoryList\n");
	});
	out.extend_from_slice(END_INV);
	out
}

fn special_idx(s: &mut Src) -> u16 {
	if let Some(v) = s.num(0, 4095) { return v as u16; }
	match s.weighted(&[1, 2, 3]) {
		0 => 0,
		1 => *s.pick(&[4095, 15, 240, 3840, 255, 4080, 3855, 1, 16, 256, 2048]),
		_ => s.below(4096) as u16,
	}
}

pub fn meta(s: &mut Src, private_ok: bool, big: u64) -> Meta {
	let mut m = Meta { vars: BTreeMap::new(), inv: vec![] };
	let count = s.len(1200);
	let many = s.chance(1, 60);
	if many || count.is_some() {
		let n = count.unwrap_or_else(|| *s.pick(&[70, 300]));
		for i in 0..n {
			m.vars.insert(format!("k{}", i).into_bytes(), (b"val".to_vec(),
				private_ok && i % 3 == 0));
		}
	}
	s.list(0, 5, 2, |s, _| {
		let k = if let Some(w) = s.word() {
			affix(s, w)
		} else if let Some(n) = s.len(65_535) {
			vec![b'K'; n]
		} else if s.chance(1, 80) {
			vec![b'K'; *s.pick(&[300usize, 2000, 129, 65_535])]
		} else { s.pick(&KEYS).to_vec() };
		let v = text(s, big);
		let p = private_ok && s.chance(1, 3);
		m.vars.insert(k, (v, p));
	});
	m.inv = inventory(s);
	m
}

fn obj_data(s: &mut Src, items: u64) -> (u8, Vec<u8>) {
	let kind = if s.chance(items, 100) { 1 }
		else { s.weighted(&[50, 0, 8, 8, 8, 8]) };
	let lua = |name: &[u8], data: &[u8], tail: &[u8]| {
		let mut v = vec![1];
		s16(&mut v, name);
		s32(&mut v, data);
		v.extend_from_slice(tail);
		v
	};
	let tail: &[u8] = b"\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\
		\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00";
	match kind {
		0 => {
			let n = obj_name(s);
			let d = text(s, 0);
			(7, lua(n.as_bytes(), &d[..d.len().min(60_000)], tail))
		},
		1 => {
			let item = item_name(s);
			let suffix = *s.pick(&["", " 2", " 1 300", " 99 32",
				" 1 0 \\\"\\\\u0001x\\\\u0002y\\\\u0003\\\""]);
			let more = if let Some(n) = s.len(20_000) {
				"m".repeat(n)
			} else if s.chance(1, 6) {
				"m".repeat(*s.pick(&[200usize, 300, 1000, 5000]))
			} else { String::new() };
			let d = match s.weighted(&[4, 4, 3, 1, 1]) {
				0 => format!("return {{{}age=400,itemstring=\"{}{}\",\
					dropped_by=\"singleplayer\"}}", if more.is_empty() { more }
					else { format!("note=\"{}\",", more) }, item, suffix).into_bytes(),
				1 => format!("return {{[\"age\"] = 0.9, {}[\"itemstring\"] = \
					\"{}{}\", [\"dropped_by\"] = \"x\"}}", if more.is_empty() { more }
					else { format!("[\"note\"] = \"{}\", ", more) }, item, suffix)
					.into_bytes(),
				2 => format!("{}{}", item,
					s.pick(&["", " 2", " 1 300"])).into_bytes(),
				3 => b"return {}".to_vec(),
				_ => format!("return {{age=1,itemstring=\"{}\"}}",
					s.pick(&["", "odd"])).into_bytes(),
			};
			(7, lua(b"__builtin:item", &d, tail))
		},
		2 => { // Unsupported LuaEntity version
			let mut v = lua(b"a:b", b"data", tail);
			v[0] = 0;
			(7, v)
		},
		3 => { // Truncated
			let mut v = lua(b"a:b", b"some data", b"");
			let n = s.usize_to(v.len() - 1);
			v.truncate(n);
			(7, v)
		},
		4 => (*s.pick(&[2, 3, 6, 0, 255]), lua(b"a:b", b"data", tail)),
		_ => { let n = s.usize_to(50); (s.below(256) as u8, rand_bytes(s.seed(), n)) },
	}
}

pub fn obj_name(s: &mut Src) -> String {
	if let Some(w) = s.word_name() { return w; }
	s.pick(&["boats:boat", "carts:cart", "a:b", "boats:boat2", "mobs:Cow_1",
		"aa:aaaa"]).to_string()
}

fn obj(s: &mut Src, bp: V3, items: u64) -> Obj {
	let (ty, data) = obj_data(s, items);
	let mut pos = [0i32; 3];
	for i in 0..3 {
		let p = bp[i] * 16 + *s.pick(&[0i64, 15, 1, 14, 8, 5]);
		let lo = if p <= 0 { -4999 } else { -5000 };
		if let Some(v) = s.num(lo, 4999) {
			pos[i] = (p * 10000 + v) as i32;
			continue;
		}
		let f = match s.weighted(&[3, 1, 1, 3]) {
			0 => 0,
			1 => lo,
			2 => 4999,
			_ => s.range(lo, 4999),
		};
		pos[i] = (p * 10000 + f) as i32;
	}
	Obj { ty, pos, data }
}

/// Node IDs over `n` names.
fn node_pattern(s: &mut Src, n: usize) -> Vec<u16> {
	let mut v = vec![0u16; 4096];
	let n = n as u64;
	match s.weighted(&[2, 3, 2, 3, 2]) {
		0 => {
			let x = s.below(n) as u16;
			v.fill(x);
		},
		1 => {
			let mut r = Rng::new(s.seed());
			for x in &mut v { *x = r.below(n) as u16; }
		},
		2 => { // Layers along an axis
			let sh = *s.pick(&[0, 4, 8]);
			let per = 1 + s.below(5);
			for (i, x) in v.iter_mut().enumerate() {
				*x = (((i >> sh & 15) as u64 / per) % n) as u16;
			}
		},
		3 => { // Sparse
			let base = s.below(n) as u16;
			v.fill(base);
			s.list(0, 12, 4, |s, _| {
				let i = special_idx(s);
				v[i as usize] = s.below(n) as u16;
			});
		},
		_ => { // Corners and faces
			let base = s.below(n) as u16;
			v.fill(base);
			let other = s.below(n) as u16;
			for (i, x) in v.iter_mut().enumerate() {
				let e = [i & 15, i >> 4 & 15, i >> 8].iter()
					.filter(|&&c| c == 0 || c == 15).count();
				if e >= 2 { *x = other; }
			}
		},
	}
	v
}

fn params(s: &mut Src) -> Vec<u8> {
	if let Some(v) = s.num(0, 255) { return vec![v as u8; 4096]; }
	match s.weighted(&[3, 3, 2, 1]) {
		0 => vec![0; 4096],
		1 => rand_bytes(s.seed(), 4096),
		2 => vec![s.below(256) as u8; 4096],
		_ => (0..4096).map(|i| (i ^ i >> 8) as u8).collect(),
	}
}

pub fn block(s: &mut Src, c: &Cfg, bp: V3) -> Block {
	let version = *s.pick(c.versions);
	let mut names: Vec<Vec<u8>> = vec![];
	let wide = s.chance(c.big, 100);
	let count = s.len(4096);
	let wide = wide || count.is_some();
	if wide {
		let n = count.unwrap_or_else(|| *s.pick(&[300usize, 257, 1000, 4096]));
		for i in 0..n {
			names.push(format!("wide:n{}", i).into_bytes());
		}
	}
	let narrow = s.list(1, 8, 3, |s, _| {
		if s.chance(c.odd, 400) {
			s.pick(&ODD_NAMES).to_vec()
		} else if let Some(w) = s.word_name() {
			w.into_bytes()
		} else if let Some(n) = s.len(65_000) {
			let mut v = b"long:".to_vec();
			v.extend(vec![b'l'; n.saturating_sub(5)]);
			v
		} else if s.chance(1, 60) {
			let n = *s.pick(&[300usize, 250, 251, 65000, 40, 70, 130, 260]);
			let mut v = b"long:".to_vec();
			v.extend(vec![b'n'; n]);
			// With a twin that is different at the end only
			if n < 250 || n == 260 { v.extend(b"_twin1"); }
			v
		} else {
			s.pick(&NAMES).as_bytes().to_vec()
		}
	});
	let twins: Vec<Vec<u8>> = narrow.iter().filter(|n| n.ends_with(b"_twin1"))
		.map(|n| { let mut t = n.clone(); t.pop(); t.push(b'2'); t }).collect();
	for n in narrow.into_iter().chain(twins) {
		if c.dup || !names.contains(&n) {
			names.push(n);
		}
	}
	names.truncate(4096);
	let mut pat = node_pattern(s, names.len());
	if wide {
		let mut r = Rng::new(s.seed());
		for (i, x) in pat.iter_mut().enumerate() {
			*x = if s_all(&mut r, names.len()) { (i % names.len()) as u16 }
				else { r.below(names.len() as u64) as u16 };
		}
	}
	// Assign IDs: compact in order, permuted, or with gaps.
	let n = names.len();
	let mut ids: Vec<u16> = (0..n as u16).collect();
	match s.weighted(&[5, 3, 2]) {
		0 => (),
		1 => {
			let mut r = Rng::new(s.seed());
			for i in (1..n).rev() {
				ids.swap(i, r.below(i as u64 + 1) as usize);
			}
		},
		_ => {
			let mut r = Rng::new(s.seed());
			let mut cur = 0u16;
			for x in ids.iter_mut() {
				cur += 1 + r.below(4) as u16;
				*x = cur - 1;
			}
			for i in (1..n).rev() {
				ids.swap(i, r.below(i as u64 + 1) as usize);
			}
			// Anywhere in the range of IDs
			let dict = s.num(0, 65_535);
			if dict.is_some() || s.chance(1, 6) {
				let up = dict.map_or_else(|| *s.pick(&[60_000u16, 32_768, 4090,
					65_535]), |v| v as u16);
				let max = *ids.iter().max().unwrap();
				let up = up.min(65_535 - max);
				let part = s.bool();
				for x in ids.iter_mut() {
					if !part || *x == max { *x += up; }
				}
			}
		},
	}
	let mut idn: Vec<(u16, Vec<u8>)> = ids.iter().copied().zip(names).collect();
	if s.bool() {
		idn.sort();
	}
	let nodes = pat.iter().map(|&p| ids[p as usize]).collect();
	let p1 = params(s);
	let p2 = params(s);

	let private_ok = version >= 28 || s.chance(1, 8);
	let mut metas = BTreeMap::new();
	if s.chance(c.meta, 100) {
		let count = s.num(1, 4096);
		if count.is_some() || s.chance(c.big, 200) {
			let n = count.map_or_else(|| *s.pick(&[300usize, 257, 4096, 1500]),
				|v| v as usize);
			for i in 0..n {
				metas.insert((i * (4096 / n)) as u16, Meta {
					vars: [(b"infotext".to_vec(), (format!("{}", i).into_bytes(),
						false))].into_iter().collect(),
					inv: END_INV.to_vec() });
			}
		}
		s.list(1, 6, 3, |s, _| {
			let i = special_idx(s);
			let m = meta(s, private_ok, c.big);
			metas.insert(i, m);
		});
	}
	let mut objs = vec![];
	if s.chance(c.objs, 100) {
		objs = s.list(1, 6, 3, |s, _| obj(s, bp, c.items));
		let count = s.len(2100);
		if count.is_some() || s.chance(c.big, 200) {
			let o = objs[0].clone();
			if o.data.len() < 200 {
				let n = count.unwrap_or_else(|| *s.pick(&[300usize, 1030, 2100, 257]));
				for i in 0..n {
					let mut o = o.clone();
					let a = i % 4;
					if a < 3 {
						let p = o.pos[a] as i64 + (i as i64 % 20 - 9) * 10_000;
						if p.abs() < 309_000_000 && (p > 0) == (o.pos[a] > 0) {
							o.pos[a] = p as i32;
						}
					}
					objs.push(o);
				}
			}
		}
	}
	let mut timers: Vec<(u16, u32, u32)> = vec![];
	if s.chance(c.timers, 100) {
		let count = s.num(1, 4096);
		if count.is_some() || s.chance(c.big, 200) {
			for i in 0..count.map_or_else(|| *s.pick(&[300u16, 4096, 1100]),
				|v| v as u16)
			{
				timers.push((i, i as u32 + 1, 7));
			}
		}
		s.list(1, 6, 3, |s, _| {
			let p = special_idx(s);
			let t = s.num(0, u32::MAX as i64).map_or_else(|| *s.pick(&[1337, 0, 1,
				u32::MAX, 0x8000_0000, 255, 65536]), |v| v as u32);
			let e = s.num(0, u32::MAX as i64).map_or_else(|| *s.pick(&[0, 200,
				u32::MAX, 65535, 399]), |v| v as u32);
			if !timers.iter().any(|x| x.0 == p) {
				timers.push((p, t, e));
			}
		});
	}
	let mut flags = s.num(0, 255).map_or_else(|| *s.pick(&[0u8, 3, 1, 2, 4, 0x10,
		0xF7]), |v| v as u8 & !8);
	let lighting = s.num(0, 65_535).map_or_else(|| *s.pick(&[0xFFFF, 0xF1C4, 0,
		0x1234]), |v| v as u16);
	let timestamp = s.num(0, u32::MAX as i64).map_or_else(|| *s.pick(&[542, 0,
		u32::MAX, 0x01020304, 0x80000000]), |v| v as u32);
	if s.chance(c.ungen, 100) {
		flags |= 8;
	}
	Block {
		version, flags,
		lighting: if version >= 27 { lighting } else { 0xFFFF },
		timestamp,
		names: idn, nodes, p1, p2, meta: metas, objs, timers,
	}
}

fn s_all(_r: &mut Rng, n: usize) -> bool { n == 4096 }

pub fn enc_opts(s: &mut Src, b: &Block) -> EncOpts {
	EncOpts {
		level: *s.pick(&[1, 6, 9, 3]),
		streaming: s.chance(3, 4),
		checksum: s.chance(1, 8),
		meta_version: None,
		long_empty_meta: b.meta.is_empty() && s.chance(1, 10),
		reverse_vars: s.chance(1, 4),
	}
}

/// Change some bytes, rarely those of the node data.
fn damage(s: &mut Src, v: &mut Vec<u8>, nodes: Option<(usize, usize)>,
	starts: &[usize])
{
	let n = v.len();
	let near = s.chance(2, 3);
	let at = |s: &mut Src| match nodes {
		_ if near => (*s.pick(starts) + s.below(12) as usize).min(n),
		Some((a, l)) if n > a + l && s.chance(9, 10) => {
			let rest = n - a - l;
			let p = s.usize_to(a + rest);
			if p < a { p } else { p + l }
		},
		_ => s.usize_to(n),
	};
	let p = at(s);
	match s.weighted(&[3, 5, 2, 2, 1, 1]) {
		0 => if p < n { v[p] ^= 1 + s.below(255) as u8; },
		1 => {
			let c = *s.pick(&[0xFFu8, 0xFF, 0, 0x7F, 1]);
			for i in 0..*s.pick(&[4, 2, 1, 3]) {
				if p + i < n { v[p + i] = if i > 0 && c == 0x7F { 0xFF } else { c }; }
			}
		},
		2 => v.truncate(p),
		3 => {
			let k = 1 + s.usize_to(12);
			let b = rand_bytes(s.seed(), k);
			if s.bool() { v.extend(b); } else { v.splice(p..p, b); }
		},
		4 => if p < n {
			let e = (p + 1 + s.usize_to(5)).min(n);
			v.drain(p..e);
		},
		_ => if p < n {
			let e = (p + 1 + s.usize_to(40)).min(n);
			let c = v[p..e].to_vec();
			v.splice(p..p, c);
		},
	}
}

/// A row that is not a supported, well-formed block.
pub fn bad_row(s: &mut Src, c: &Cfg, bp: V3) -> Vec<u8> {
	let mut cc = c.clone();
	cc.big = 0;
	let mut b = block(s, &cc, bp);
	b.names.iter_mut().for_each(|n| n.1.truncate(40));
	let o = EncOpts::default();
	match s.weighted(&[2, 3, 5, 2, 2, 2, 4, 2, 9]) {
		0 => vec![],
		1 => {
			let mut v = b.encode(&o);
			v[0] = s.num(0, 255).map_or_else(|| *s.pick(&[24, 30, 0, 255, 22, 128,
				31]), |v| v as u8);
			v
		},
		2 => {
			let mut v = b.encode(&o);
			let n = s.len(v.len() - 1).unwrap_or_else(|| s.usize_to(v.len() - 1));
			v.truncate(n);
			v
		},
		3 => vec![*s.pick(&[28, 29, 25, 27])],
		4 => {
			let n = s.num(1, 5000).map_or_else(|| 1 + s.usize_to(200), |v| v as usize);
			let mut v = rand_bytes(s.seed(), n);
			v[0] = *s.pick(&[29, 28, 25, 27, 77]);
			v
		},
		5 => { // Wrong widths or sub-versions, before compression
			if b.version == 29 {
				let mut body = b.encode_body29(&o);
				let names_end = 7 + 3 + b.names.iter()
					.map(|n| 4 + n.1.len()).sum::<usize>();
				let at = *s.pick(&[names_end, names_end + 1, 7,
					names_end + 2 + 16384]);
				body[at] = *s.pick(&[1, 3, 200]);
				if at == names_end + 2 + 16384 { body[at] = 3; }
				let mut v = vec![29];
				v.extend(crate::ffi::zstd_compress(&body, 1, true, false));
				v
			} else {
				let mut v = b.encode(&o);
				let at = if b.version >= 27 { 4 } else { 2 };
				v[at + s.usize_to(1)] = *s.pick(&[1, 0, 3]);
				v
			}
		},
		6 => { // A random flipped byte
			let mut v = b.encode(&o);
			let i = s.usize_to(v.len() - 1);
			v[i] ^= 1 + s.below(255) as u8;
			v
		},
		8 => { // Damage below the compression
			let part = *s.pick(&[1, 2, 2, 1, 0]);
			cc.meta = 70;
			cc.objs = 50;
			cc.timers = 50;
			b = block(s, &cc, bp);
			b.names.iter_mut().for_each(|n| n.1.truncate(40));
			let names = 3 + b.names.iter().map(|n| 4 + n.1.len()).sum::<usize>();
			let mut objs = vec![];
			b.enc_objs(&mut objs);
			let objs = objs.len();
			// Where the sections begin
			let part = if b.version == 29 { 3 } else { part };
			let starts = match part {
				0 => vec![0, 16384],
				1 => vec![0],
				2 => vec![0, objs, objs + 4, objs + 4 + names],
				_ => {
					let mut v = vec![0, 7, 7 + names, 9 + names + 16384];
					v.push(v[3] + b.enc_meta(&o).len());
					v.push(v[4] + objs);
					v
				},
			};
			b.encode_parts(&o, &mut |i, v| if i == part % 3 {
				let skip = match part { 3 => Some((9 + names, 16384)),
					0 => Some((0, 16384)), _ => None };
				for _ in 0..1 + s.below(2) { damage(s, v, skip, &starts); }
			})
		},
		_ => { // Timer record length
			let tl = b.timers.len();
			if b.version == 29 {
				let mut body = b.encode_body29(&o);
				let at = body.len() - 3 - tl * 10;
				body[at] = *s.pick(&[12, 0, 9]);
				let mut v = vec![29];
				v.extend(crate::ffi::zstd_compress(&body, 1, true, false));
				v
			} else {
				let mut v = b.encode(&o);
				let at = v.len() - 3 - tl * 10;
				v[at] = *s.pick(&[12, 0, 9]);
				v
			}
		},
	}
}

pub fn row(s: &mut Src, c: &Cfg, bp: V3) -> Row {
	if s.chance(c.bad, 100) {
		return Row::classify(bad_row(s, c, bp));
	}
	let b = block(s, c, bp);
	let o = enc_opts(s, &b);
	let bytes = b.encode(&o);
	Row { bytes, st: St::Good(Box::new(b)) }
}

pub fn base(s: &mut Src) -> V3 {
	if let Some(v) = s.num(-1930, 1930) {
		let mut b = [0; 3];
		let all = s.bool();
		let i = s.below(3) as usize;
		for (j, c) in b.iter_mut().enumerate() { if all || i == j { *c = v; } }
		return b;
	}
	match s.weighted(&[3, 3, 2, 1]) {
		0 => [0, 0, 0],
		1 => [-1, -1, -1],
		2 => [s.range(-1900, 1900), s.range(-1900, 1900), s.range(-1900, 1900)],
		_ => {
			let f = |s: &mut Src| *s.pick(&[1936, -1936, 0]);
			[f(s), f(s), f(s)]
		},
	}
}

fn clampb(v: i64) -> i64 { v.max(-1937).min(1937) }

pub fn near(s: &mut Src, b: V3) -> V3 {
	let mut o = [0; 3];
	for i in 0..3 {
		if let Some(v) = s.num(-60, 60) {
			o[i] = clampb(b[i] + v);
			continue;
		}
		o[i] = clampb(b[i] + *s.pick(&[0, 0, 1, -1, 1, -1, 2, -2]));
	}
	o
}

pub fn db_opts(s: &mut Src) -> DbOpts {
	DbOpts {
		page_size: *s.pick(&[4096, 1024, 512, 4096, 8192, 65536]),
		shuffle: if s.bool() { s.seed() } else { 0 },
		not_null: s.chance(1, 3),
		extra_table: s.chance(1, 8),
		auto_vacuum: s.chance(1, 12),
		junk: if s.chance(1, 8) { s.below(20) as u32 } else { 0 },
		frag: 0,
		wal: s.chance(1, 14),
		user: s.chance(1, 10),
		stats: s.chance(1, 12),
		without_rowid: s.chance(1, 14),
		nulls: s.chance(1, 6),
	}
}

pub fn world(s: &mut Src, c: &Cfg, b: V3) -> World {
	let mut w = World { rows: BTreeMap::new(), opts: DbOpts::default() };
	if s.chance(1, 100) {
		// A new map, to which nothing has been saved yet.
		w.opts = db_opts(s);
		return w;
	}
	let rows = s.list(1, c.max_blocks, c.avg_blocks, |s, i| {
		let p = if i == 0 { b.map(clampb) } else { near(s, b) };
		(key_of(p), row(s, c, p))
	});
	for (k, r) in rows {
		w.rows.insert(k, r);
	}
	w.opts = db_opts(s);
	w
}

/// A dense cuboid of blocks.
pub fn cuboid(s: &mut Src, c: &Cfg, b: V3) -> World {
	let mut w = World { rows: BTreeMap::new(), opts: DbOpts::default() };
	let d = [1 + s.below(3) as i64, 1 + s.below(3) as i64, 1 + s.below(3) as i64];
	for z in 0..d[2] {
		for y in 0..d[1] {
			for x in 0..d[0] {
				let p = [clampb(b[0] + x), clampb(b[1] + y), clampb(b[2] + z)];
				if s.chance(1, 8) {
					continue;
				}
				w.rows.insert(key_of(p), s.span(|s| row(s, c, p)));
			}
		}
	}
	w.opts = db_opts(s);
	w
}

fn clampn(v: i64) -> i64 { v.max(-31000).min(31000) }

/// Two opposite corners, in any arrangement.
pub fn corners(s: &mut Src, w: &World, b: V3) -> (V3, V3) {
	let keys: Vec<i64> = w.rows.keys().copied().collect();
	let bp = if keys.is_empty() { b } else { pos_of(*s.pick(&keys)) };
	let (mut lo, mut hi) = ([0i64; 3], [0i64; 3]);
	match s.weighted(&[2, 7, 2, 2, 2, 1, 1]) {
		0 => for i in 0..3 { // One block exactly
			lo[i] = bp[i] * 16;
			hi[i] = bp[i] * 16 + 15;
		},
		1 => for i in 0..3 { // Corners at interesting places
			let f = |s: &mut Src| (bp[i] + *s.pick(&[0, 0, 0, 1, -1, 2, -2])) * 16
				+ match s.weighted(&[2, 2, 1, 1, 3]) {
					0 => 0, 1 => 15, 2 => 1, 3 => 14,
					_ => s.below(16) as i64,
				};
			lo[i] = f(s);
			hi[i] = f(s);
		},
		2 => { // A single node
			for i in 0..3 {
				lo[i] = bp[i] * 16 + *s.pick(&[0, 15, 1, 7, 14]);
				hi[i] = lo[i];
			}
		},
		3 => { // A part of one block
			for i in 0..3 {
				lo[i] = bp[i] * 16 + s.below(16) as i64;
				hi[i] = bp[i] * 16 + s.below(16) as i64;
			}
		},
		4 => { // A slab through the blocks
			let ax = s.below(3) as usize;
			for i in 0..3 {
				if i == ax {
					lo[i] = bp[i] * 16 + s.range(-16, 31);
					hi[i] = lo[i] + s.range(0, 20);
				} else {
					lo[i] = (bp[i] - 4) * 16 + *s.pick(&[0, 3]);
					hi[i] = (bp[i] + 4) * 16 + *s.pick(&[15, 3]);
				}
			}
		},
		5 => { // The whole map
			lo = [-31000; 3];
			hi = [31000; 3];
		},
		_ => { // Somewhere else
			for i in 0..3 {
				lo[i] = s.range(-31000, 31000);
				hi[i] = s.range(-31000, 31000);
			}
		},
	}
	for i in 0..3 {
		if let Some(v) = s.num(-31_000, 31_000) {
			// A coordinate, or an extent
			if s.bool() { lo[i] = v; } else { hi[i] = lo[i] + v.abs(); }
			if lo[i] > hi[i] { hi[i] = lo[i] + (s.below(40) as i64); }
		}
		lo[i] = clampn(lo[i]);
		hi[i] = clampn(hi[i]);
		if s.chance(1, 3) {
			std::mem::swap(&mut lo[i], &mut hi[i]);
		}
	}
	(lo, hi)
}

fn valid_arg_name(n: &[u8]) -> bool {
	if n == b"air" || n == b"ignore" { return true; }
	let d = match n.iter().position(|&c| c == b':') {
		Some(d) => d, None => return false };
	n[..d].iter().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || *c == b'_')
		&& n[d + 1..].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}

fn names_in(w: &World) -> Vec<String> {
	let mut v: Vec<String> = vec![];
	for r in w.rows.values() {
		if let Some(b) = r.good() {
			for (_, n) in b.names.iter().take(12) {
				if valid_arg_name(n) && !v.iter().any(|x| x.as_bytes() == &n[..]) {
					v.push(String::from_utf8(n.clone()).unwrap());
				}
			}
		}
	}
	v.sort();
	v
}

pub fn node_name(s: &mut Src, w: &World) -> String {
	let names = names_in(w);
	if let Some(w) = s.word_name() {
		w
	} else if names.is_empty() || s.chance(1, 6) {
		s.pick(&NAMES).to_string()
	} else {
		s.pick(&names).clone()
	}
}

/// Mostly a name of a node that has metadata (or timers).
fn special_node(s: &mut Src, w: &World) -> String {
	let mut v: Vec<String> = vec![];
	for r in w.rows.values() {
		if let Some(b) = r.good() {
			let pos = b.meta.keys().take(8).copied()
				.chain(b.timers.iter().take(8).map(|t| t.0));
			for i in pos {
				if let Some(n) = b.name_at(i as usize) {
					if valid_arg_name(n) {
						v.push(String::from_utf8(n.to_vec()).unwrap());
					}
				}
			}
		}
	}
	v.sort();
	if v.is_empty() || s.chance(1, 4) { node_name(s, w) }
	else { s.pick(&v).clone() }
}

fn nodes_opt(s: &mut Src, w: &World) -> Vec<String> {
	if s.bool() { return vec![]; }
	let mut v = s.list(1, 4, 2, |s, _| special_node(s, w));
	v.dedup();
	lengthen(s, &mut v);
	v
}

/// Sometimes put many other names among these.
fn lengthen(s: &mut Src, v: &mut Vec<String>) {
	if v.is_empty() || !s.chance(if s.dict { 3 } else { 1 }, 6) { return; }
	let n = s.len(500).unwrap_or_else(|| *s.pick(&[5, 8, 16, 40, 300]));
	for i in 0..n {
		let at = s.usize_to(v.len());
		v.insert(at, format!("no:such{}", i));
	}
}

fn arg_text(s: &mut Src) -> String {
	if let Some(n) = s.num(1, 100_000) { return "d".repeat(n as usize); }
	if let Some(w) = s.word() {
		if let Ok(t) = String::from_utf8(affix(s, w)) {
			if !t.starts_with('-') && !t.contains('\0') { return t; }
		}
	}
	match s.weighted(&[4, 2, 1, 1]) {
		0 => s.pick(&["player1", "New text", "x", "é☃", "a\nb", "EndInventory\n",
			" ", "\u{1}\u{2}", "infotext"]).to_string(),
		1 => { let n = 1 + s.usize_to(30); "v".repeat(n) },
		2 => { let n = 1 + s.usize_to(3000);
			let mut r = Rng::new(s.seed());
			(0..n).map(|i| if i == 0 { 'q' }
				else { (32 + r.below(95) as u8) as char }).collect() },
		_ => {
			let n = *s.pick(&[33_000usize, 70_000, 100_000]);
			let mut r = Rng::new(s.seed());
			(0..n).map(|i| if i == 0 { 'q' }
				else { (32 + r.below(95) as u8) as char }).collect()
		},
	}
}

pub fn offset(s: &mut Src) -> V3 {
	let mut o = [0i64; 3];
	match s.weighted(&[3, 3, 3, 2]) {
		0 => for c in &mut o { *c = 16 * s.range(-2, 2); },
		1 => for c in &mut o { *c = s.range(-20, 20); },
		2 => { // Along one axis
			let a = s.below(3) as usize;
			o[a] = *s.pick(&[1, -1, 16, -16, 15, -15, 17, 8, -8, 32, -32, 5]);
		},
		_ => for c in &mut o { *c = s.range(-50, 50); },
	}
	for c in &mut o {
		if let Some(v) = s.num(-3000, 3000) { *c = v; }
	}
	if o == [0; 3] {
		o[s.below(3) as usize] = *s.pick(&[1, -1, 16, -16]);
	}
	o
}

/// Choose area and offset such that one existing block is copied to another.
pub fn aim(s: &mut Src, from: &World, to: &World, c: &mut Cmd) {
	let (kf, kt): (Vec<i64>, Vec<i64>) = (from.rows.keys().copied().collect(),
		to.rows.keys().copied().collect());
	if kf.is_empty() || kt.is_empty() { return; }
	let (a, b) = (pos_of(*s.pick(&kf)), pos_of(*s.pick(&kt)));
	let style = s.weighted(&[3, 2, 3]);
	let mut o = [0; 3];
	for i in 0..3 {
		o[i] = (b[i] - a[i]) * 16 + match style { 0 => 0,
			1 => *s.pick(&[0, 0, 1, -1, 8]), _ => s.range(-15, 15) };
	}
	for c in &mut o {
		if let Some(v) = s.num(-48, 48) { *c = v; }
	}
	if o == [0; 3] { o[s.below(3) as usize] = *s.pick(&[1, -1, 5, -9]); }
	c.offset = Some(o);
	if s.chance(1, 4) { return; }
	let (mut lo, mut hi) = ([0; 3], [0; 3]);
	for i in 0..3 {
		lo[i] = clampn(a[i] * 16 + s.below(16) as i64 - *s.pick(&[0, 0, 16, 5]));
		hi[i] = clampn(a[i] * 16 + s.below(16) as i64 + *s.pick(&[0, 0, 16, 30]));
		if s.bool() { std::mem::swap(&mut lo[i], &mut hi[i]); }
	}
	c.p1 = Some(lo);
	c.p2 = Some(hi);
}

pub fn cmd(s: &mut Src, k: K, w: &World, b: V3) -> Cmd {
	let mut c = Cmd::new(k);
	let area_pct = match k {
		K::Clone | K::DeleteBlocks | K::Fill => 100,
		K::Vacuum => 0,
		K::Overlay => 70,
		_ => 60,
	};
	if s.chance(area_pct, 100) {
		let (p1, p2) = corners(s, w, b);
		c.p1 = Some(p1);
		c.p2 = Some(p2);
		if k != K::Clone {
			c.invert = s.chance(2, 5);
		}
	}
	match k {
		K::Clone => {
			c.offset = Some(offset(s));
			if s.chance(1, 2) { aim(s, w, w, &mut c); }
		},
		K::Overlay => c.input_map = Some("in.sqlite".into()),
		K::DeleteBlocks | K::Vacuum => (),
		K::Fill => c.new_node = Some(node_name(s, w)),
		K::ReplaceNodes => {
			let a = node_name(s, w);
			let mut n = if s.chance(1, 3) { "new:node".into() }
				else { node_name(s, w) };
			if n == a { n = if a == "other:node" { "air" } else { "other:node" }
				.into(); }
			c.node = Some(a);
			c.new_node = Some(n);
		},
		K::SetParam2 => {
			if c.p1.is_none() || s.bool() {
				c.node = Some(node_name(s, w));
			}
			c.param2 = Some(s.num(0, 255).map_or_else(|| *s.pick(&[0, 255, 1, 7, 128,
				99]), |v| v as u8));
		},
		K::DeleteMeta | K::DeleteTimers => {
			if s.bool() { c.node = Some(special_node(s, w)); }
		},
		K::DeleteObjects => match s.weighted(&[1, 2, 3]) {
			0 => (),
			1 => c.obj = Some(if s.chance(1, 6) { "__builtin:item".into() }
				else { obj_name(s) }),
			_ => {
				let mut v = s.list(0, 3, 1, |s, _| world_item(s, w, false));
				lengthen(s, &mut v);
				c.items = Some(v);
			},
		},
		K::SetMetaVar => {
			let mut keys: Vec<String> = vec![];
			for r in w.rows.values() {
				if let Some(b) = r.good() {
					for m in b.meta.values().take(8) {
						for k in m.vars.keys().take(6) {
							if let Ok(t) = std::str::from_utf8(k) {
								if !t.is_empty() && !t.contains('\0')
									&& !t.starts_with('-') { keys.push(t.into()); }
							}
						}
					}
				}
			}
			keys.sort();
			keys.dedup();
			c.key = Some(if keys.is_empty() || s.chance(1, 8) { "infotext".into() }
				else { s.pick(&keys).clone() });
			if s.chance(1, 3) { c.delete = true; }
			else { c.value = Some(arg_text(s)); }
			// Keep the result to a size which can be handled.
			if w.rows.values().any(|r| r.good().map_or(false, |b|
				b.meta.len() > 300))
			{
				c.value = c.value.map(|v| v.chars().take(2000).collect());
			}
			c.nodes = nodes_opt(s, w);
		},
		K::ReplaceInInv => {
			let a = world_item(s, w, true);
			match s.weighted(&[3, 2, 2, 1]) {
				0 => {
					let mut n = item_name(s);
					if n == a { n = "new:item".into(); }
					c.new_item = Some(n);
				},
				1 => c.delete = true,
				2 => {
					c.delete_meta = true;
					if s.bool() {
						c.new_item = Some(if s.chance(1, 4) { a.clone() }
							else { item_name(s) });
					}
				},
				_ => { c.delete = true; c.delete_meta = true; },
			}
			c.item = Some(a);
			c.nodes = nodes_opt(s, w);
		},
	}
	c.order = if s.bool() { s.seed() } else { 0 };
	c
}

/// The source map of an overlay, somehow related to the main map.
pub fn input_world(s: &mut Src, c: &Cfg, w: &World, b: V3) -> World {
	let mut iw = world(s, c, b);
	for (k, r) in &w.rows {
		match s.weighted(&[4, 3, 1]) {
			0 => (),
			1 => {
				let p = pos_of(*k);
				iw.rows.insert(*k, s.span(|s| row(s, c, p)));
			},
			_ => { iw.rows.insert(*k, r.clone()); },
		}
	}
	iw
}

pub fn dst_ok(c: &Cmd) -> bool {
	let o = c.offset.unwrap_or([0; 3]);
	let a = c.area().unwrap_or(Area::new([-31000; 3], [31000; 3])).shift(o);
	(0..3).all(|i| a.lo[i] <= 31000 && a.hi[i] >= -31000)
}

/// Short description of a world for replays and evidence.
pub fn describe(w: &World) -> String {
	let mut v = vec![];
	for (k, r) in w.rows.iter().take(12) {
		let p = pos_of(*k);
		v.push(match &r.st {
			St::Good(b) => format!("{:?} v{}{} {} names, {} meta, {} objects, {} \
				timers, {} bytes", p, b.version,
				if b.generated() { "" } else { " (not generated)" },
				b.names.len(), b.meta.len(), b.objs.len(), b.timers.len(),
				r.bytes.len()),
			St::Bad => format!("{:?} invalid/unsupported ({} bytes)", p,
				r.bytes.len()),
			St::Gray => format!("{:?} odd ({} bytes)", p, r.bytes.len()),
		});
	}
	if w.rows.len() > 12 {
		v.push(format!("... {} blocks in total", w.rows.len()));
	}
	v.join("; ")
}
