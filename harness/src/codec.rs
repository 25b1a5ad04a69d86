//! Reference encoder/decoder for Minetest mapblocks (versions 25-29), written
//! from the format, not from MapEditr.

use std::collections::{BTreeMap, HashMap};
use crate::ffi;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct Meta {
	pub vars: BTreeMap<Vec<u8>, (Vec<u8>, bool)>,
	/// Serialized inventory, including its terminator.
	pub inv: Vec<u8>,
}

pub const END_INV: &[u8] = b"EndInventory\n";

impl Meta {
	pub fn is_empty(&self) -> bool {
		self.vars.is_empty() && self.inv == END_INV
	}
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Obj {
	pub ty: u8,
	pub pos: [i32; 3],
	pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Block {
	pub version: u8,
	pub flags: u8,
	pub lighting: u16,
	pub timestamp: u32,
	/// Name-ID map in file order.
	pub names: Vec<(u16, Vec<u8>)>,
	pub nodes: Vec<u16>,
	pub p1: Vec<u8>,
	pub p2: Vec<u8>,
	pub meta: BTreeMap<u16, Meta>,
	pub objs: Vec<Obj>,
	pub timers: Vec<(u16, u32, u32)>,
}

#[derive(Clone, Debug)]
pub struct EncOpts {
	pub level: i32,
	pub streaming: bool,
	pub checksum: bool,
	pub meta_version: Option<u8>,
	/// Write a metadata header with a count of 0 instead of version 0.
	pub long_empty_meta: bool,
	pub reverse_vars: bool,
}

impl Default for EncOpts {
	fn default() -> Self {
		EncOpts { level: 1, streaming: true, checksum: false,
			meta_version: None, long_empty_meta: false, reverse_vars: false }
	}
}

pub fn s16(dst: &mut Vec<u8>, s: &[u8]) {
	assert!(s.len() < 65536);
	dst.extend_from_slice(&(s.len() as u16).to_be_bytes());
	dst.extend_from_slice(s);
}
pub fn s32(dst: &mut Vec<u8>, s: &[u8]) {
	dst.extend_from_slice(&(s.len() as u32).to_be_bytes());
	dst.extend_from_slice(s);
}

impl Block {
	pub fn generated(&self) -> bool {
		self.flags & 8 == 0
	}
	pub fn name_of(&self, id: u16) -> Option<&[u8]> {
		self.names.iter().find(|n| n.0 == id).map(|n| n.1.as_slice())
	}
	pub fn name_at(&self, idx: usize) -> Option<&[u8]> {
		self.name_of(self.nodes[idx])
	}
	/// All IDs with a given name.
	pub fn ids_of(&self, name: &[u8]) -> Vec<u16> {
		self.names.iter().filter(|n| n.1 == name).map(|n| n.0).collect()
	}
	pub fn id_for(&mut self, name: &[u8]) -> u16 {
		if let Some(n) = self.names.iter().find(|n| n.1 == name) {
			return n.0;
		}
		let mut used: Vec<u16> = self.names.iter().map(|n| n.0).collect();
		used.sort_unstable();
		let mut id = 0u16;
		for u in used {
			if u == id { id += 1 } else if u > id { break }
		}
		self.names.push((id, name.to_vec()));
		id
	}

	fn enc_nodes(&self) -> Vec<u8> {
		let mut v = Vec::with_capacity(16384);
		for n in &self.nodes {
			v.extend_from_slice(&n.to_be_bytes());
		}
		v.extend_from_slice(&self.p1);
		v.extend_from_slice(&self.p2);
		v
	}

	pub fn enc_meta(&self, o: &EncOpts) -> Vec<u8> {
		let mut ver = if self.version >= 28 { 2 } else { 1 };
		if self.meta.values().any(|m| m.vars.values().any(|v| v.1)) {
			ver = 2;
		}
		if let Some(v) = o.meta_version {
			ver = v;
		}
		if self.meta.is_empty() {
			return if o.long_empty_meta { vec![ver, 0, 0] } else { vec![0] };
		}
		let mut v = vec![ver];
		v.extend_from_slice(&(self.meta.len() as u16).to_be_bytes());
		for (pos, m) in &self.meta {
			v.extend_from_slice(&pos.to_be_bytes());
			v.extend_from_slice(&(m.vars.len() as u32).to_be_bytes());
			let mut vars: Vec<_> = m.vars.iter().collect();
			if o.reverse_vars {
				vars.reverse();
			}
			for (k, (val, private)) in vars {
				s16(&mut v, k);
				s32(&mut v, val);
				if ver >= 2 {
					v.push(*private as u8);
				}
			}
			v.extend_from_slice(&m.inv);
		}
		v
	}

	pub fn enc_objs(&self, v: &mut Vec<u8>) {
		v.push(0);
		v.extend_from_slice(&(self.objs.len() as u16).to_be_bytes());
		for o in &self.objs {
			v.push(o.ty);
			for c in &o.pos {
				v.extend_from_slice(&c.to_be_bytes());
			}
			s16(v, &o.data);
		}
	}

	fn enc_names(&self, v: &mut Vec<u8>) {
		v.push(0);
		v.extend_from_slice(&(self.names.len() as u16).to_be_bytes());
		for (id, n) in &self.names {
			v.extend_from_slice(&id.to_be_bytes());
			s16(v, n);
		}
	}

	fn enc_timers(&self, v: &mut Vec<u8>) {
		v.push(10);
		v.extend_from_slice(&(self.timers.len() as u16).to_be_bytes());
		for (p, t, e) in &self.timers {
			v.extend_from_slice(&p.to_be_bytes());
			v.extend_from_slice(&t.to_be_bytes());
			v.extend_from_slice(&e.to_be_bytes());
		}
	}

	pub fn encode(&self, o: &EncOpts) -> Vec<u8> {
		self.encode_parts(o, &mut |_, _| ())
	}

	/// Encode, with a chance to change each part before it is compressed: the
	/// whole of a version 29 block, else (0) node data, (1) metadata and (2)
	/// what follows.
	pub fn encode_parts(&self, o: &EncOpts, f: &mut dyn FnMut(usize, &mut Vec<u8>))
		-> Vec<u8>
	{
		let mut v = vec![self.version];
		if self.version >= 29 {
			let mut body = self.encode_body29(o);
			f(0, &mut body);
			v.extend(ffi::zstd_compress(&body, o.level, o.streaming, o.checksum));
		} else {
			v.push(self.flags);
			if self.version >= 27 {
				v.extend_from_slice(&self.lighting.to_be_bytes());
			}
			v.push(2);
			v.push(2);
			let (mut nodes, mut meta) = (self.enc_nodes(), self.enc_meta(o));
			f(0, &mut nodes);
			f(1, &mut meta);
			v.extend(ffi::zlib_compress(&nodes, o.level));
			v.extend(ffi::zlib_compress(&meta, o.level));
			let mut tail = vec![];
			self.enc_objs(&mut tail);
			tail.extend_from_slice(&self.timestamp.to_be_bytes());
			self.enc_names(&mut tail);
			self.enc_timers(&mut tail);
			f(2, &mut tail);
			v.extend(tail);
		}
		v
	}

	/// Uncompressed content of a version 29 block, after the version byte.
	pub fn encode_body29(&self, o: &EncOpts) -> Vec<u8> {
		let mut b = vec![self.flags];
		b.extend_from_slice(&self.lighting.to_be_bytes());
		b.extend_from_slice(&self.timestamp.to_be_bytes());
		self.enc_names(&mut b);
		b.push(2);
		b.push(2);
		b.extend(self.enc_nodes());
		b.extend(self.enc_meta(o));
		self.enc_objs(&mut b);
		self.enc_timers(&mut b);
		b
	}
}

struct Rd<'a> {
	d: &'a [u8],
	p: usize,
}

type R<T> = Result<T, String>;

impl<'a> Rd<'a> {
	fn take(&mut self, n: usize) -> R<&'a [u8]> {
		if self.d.len() - self.p < n {
			return Err(format!("truncated at {}", self.p));
		}
		let s = &self.d[self.p..self.p + n];
		self.p += n;
		Ok(s)
	}
	fn u8(&mut self) -> R<u8> { Ok(self.take(1)?[0]) }
	fn u16(&mut self) -> R<u16> {
		Ok(u16::from_be_bytes(self.take(2)?.try_into().unwrap()))
	}
	fn u32(&mut self) -> R<u32> {
		Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
	}
	fn s16(&mut self) -> R<Vec<u8>> {
		let n = self.u16()? as usize;
		Ok(self.take(n)?.to_vec())
	}
	fn s32(&mut self) -> R<Vec<u8>> {
		let n = self.u32()? as usize;
		Ok(self.take(n)?.to_vec())
	}
	fn rest(&self) -> &'a [u8] { &self.d[self.p..] }
}

fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
	hay.windows(needle.len()).position(|w| w == needle)
}

fn dec_meta(r: &mut Rd, strict: bool) -> R<BTreeMap<u16, Meta>> {
	let ver = r.u8()?;
	let mut out = BTreeMap::new();
	if ver == 0 {
		return Ok(out);
	}
	if ver > 2 {
		return Err(format!("metadata version {}", ver));
	}
	let count = r.u16()?;
	for _ in 0..count {
		let pos = r.u16()?;
		if strict && pos >= 4096 {
			return Err(format!("metadata position {}", pos));
		}
		let nvars = r.u32()?;
		let mut vars = BTreeMap::new();
		for _ in 0..nvars {
			let k = r.s16()?;
			let v = r.s32()?;
			let private = if ver >= 2 {
				let b = r.u8()?;
				if strict && b > 1 {
					return Err(format!("private flag {}", b));
				}
				b != 0
			} else { false };
			if vars.insert(k, (v, private)).is_some() && strict {
				return Err("duplicate metadata variable".into());
			}
		}
		let rest = r.rest();
		// By lines, the way Minetest reads an inventory.
		let mut p = 0;
		let by_line = loop {
			let e = match rest[p..].iter().position(|&c| c == b'\n') {
				Some(e) => e,
				None => break None,
			};
			let line = &rest[p..p + e];
			p += e + 1;
			if line == b"EndInventory" {
				break Some(p);
			}
		};
		let len = match by_line {
			Some(l) => l,
			None if strict => return Err("unterminated inventory".into()),
			None => find(rest, END_INV).ok_or("unterminated inventory")?
				+ END_INV.len(),
		};
		let inv = r.take(len)?.to_vec();
		if out.insert(pos, Meta { vars, inv }).is_some() && strict {
			return Err(format!("duplicate metadata position {}", pos));
		}
	}
	Ok(out)
}

fn dec_objs(r: &mut Rd) -> R<Vec<Obj>> {
	let ver = r.u8()?;
	if ver != 0 {
		return Err(format!("static object version {}", ver));
	}
	let n = r.u16()?;
	let mut out = vec![];
	for _ in 0..n {
		let ty = r.u8()?;
		let pos = [r.u32()? as i32, r.u32()? as i32, r.u32()? as i32];
		let data = r.s16()?;
		out.push(Obj { ty, pos, data });
	}
	Ok(out)
}

fn dec_names(r: &mut Rd, strict: bool) -> R<Vec<(u16, Vec<u8>)>> {
	let ver = r.u8()?;
	if ver != 0 {
		return Err(format!("name-ID map version {}", ver));
	}
	let n = r.u16()?;
	let mut out: Vec<(u16, Vec<u8>)> = vec![];
	let mut seen = std::collections::HashSet::new();
	for _ in 0..n {
		let id = r.u16()?;
		let name = r.s16()?;
		if !seen.insert(id) {
			if strict {
				return Err(format!("duplicate ID {}", id));
			}
			out.retain(|x| x.0 != id);
		}
		out.push((id, name));
	}
	Ok(out)
}

fn dec_timers(r: &mut Rd, strict: bool) -> R<Vec<(u16, u32, u32)>> {
	let l = r.u8()?;
	if l != 10 {
		return Err(format!("timer data length {}", l));
	}
	let n = r.u16()?;
	let mut out = vec![];
	for _ in 0..n {
		let p = r.u16()?;
		if strict && p >= 4096 {
			return Err(format!("timer position {}", p));
		}
		out.push((p, r.u32()?, r.u32()?));
	}
	Ok(out)
}

fn dec_nodes(d: &[u8]) -> (Vec<u16>, Vec<u8>, Vec<u8>) {
	let nodes = d[..8192].chunks(2)
		.map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
	(nodes, d[8192..12288].to_vec(), d[12288..16384].to_vec())
}

/// Decode a mapblock. In strict mode, everything a correct writer would never
/// produce is an error; otherwise only what no reader could make sense of is.
pub fn decode(src: &[u8], strict: bool) -> R<Block> {
	let mut r = Rd { d: src, p: 0 };
	let version = r.u8()?;
	if !(25..=29).contains(&version) {
		return Err(format!("version {}", version));
	}
	let b = if version == 29 {
		let (body, used) = ffi::zstd_decompress(r.rest())?;
		if strict && used != r.rest().len() {
			return Err("data after zstd frame".into());
		}
		let mut r = Rd { d: &body, p: 0 };
		let flags = r.u8()?;
		let lighting = r.u16()?;
		let timestamp = r.u32()?;
		let names = dec_names(&mut r, strict)?;
		let (cw, pw) = (r.u8()?, r.u8()?);
		if cw != 2 || pw != 2 {
			return Err(format!("widths {} {}", cw, pw));
		}
		let (nodes, p1, p2) = dec_nodes(r.take(16384)?);
		let meta = dec_meta(&mut r, strict)?;
		let objs = dec_objs(&mut r)?;
		let timers = dec_timers(&mut r, strict)?;
		if strict && !r.rest().is_empty() {
			return Err("trailing data".into());
		}
		Block { version, flags, lighting, timestamp, names, nodes, p1, p2,
			meta, objs, timers }
	} else {
		let flags = r.u8()?;
		let lighting = if version >= 27 { r.u16()? } else { 0xFFFF };
		let (cw, pw) = (r.u8()?, r.u8()?);
		if cw != 2 || pw != 2 {
			return Err(format!("widths {} {}", cw, pw));
		}
		let (nd, used) = ffi::zlib_decompress(r.rest())?;
		if nd.len() != 16384 {
			return Err(format!("node data length {}", nd.len()));
		}
		r.p += used;
		let (nodes, p1, p2) = dec_nodes(&nd);
		let (md, used) = ffi::zlib_decompress(r.rest())?;
		r.p += used;
		let mut mr = Rd { d: &md, p: 0 };
		let meta = dec_meta(&mut mr, strict)?;
		if strict && !mr.rest().is_empty() {
			return Err("trailing metadata".into());
		}
		let objs = dec_objs(&mut r)?;
		let timestamp = r.u32()?;
		let names = dec_names(&mut r, strict)?;
		let timers = dec_timers(&mut r, strict)?;
		if strict && !r.rest().is_empty() {
			return Err("trailing data".into());
		}
		Block { version, flags, lighting, timestamp, names, nodes, p1, p2,
			meta, objs, timers }
	};
	if strict {
		let mut known = vec![false; 65536];
		for (id, _) in &b.names {
			known[*id as usize] = true;
		}
		if let Some(n) = b.nodes.iter().find(|&&n| !known[n as usize]) {
			return Err(format!("node ID {} has no name", n));
		}
	}
	Ok(b)
}

pub fn show(b: &[u8]) -> String {
	let mut s = String::new();
	for &c in b.iter().take(80) {
		if (32..127).contains(&c) { s.push(c as char) }
		else { s += &format!("\\x{:02x}", c) }
	}
	if b.len() > 80 {
		s += &format!("..({} bytes)", b.len());
	}
	s
}

pub fn cmp_nodes(exp: &Block, got: &Block) -> Option<String> {
	// Compare by name; memoise matching ID pairs.
	let en: HashMap<u16, &[u8]> =
		exp.names.iter().map(|n| (n.0, n.1.as_slice())).collect();
	let gn: HashMap<u16, &[u8]> =
		got.names.iter().map(|n| (n.0, n.1.as_slice())).collect();
	let mut last = None;
	for i in 0..4096 {
		let pair = (exp.nodes[i], got.nodes[i]);
		if last == Some(pair) {
			continue;
		}
		let (e, g) = (en.get(&pair.0), gn.get(&pair.1));
		if e.is_none() || g.is_none() || e != g {
			return Some(format!("node at index {} ({},{},{}): expected {}, \
				found {}", i, i & 15, i >> 4 & 15, i >> 8,
				e.map_or("<unmapped>".into(), |n| show(n)),
				g.map_or("<unmapped>".into(), |n| show(n))));
		}
		last = Some(pair);
	}
	None
}

fn cmp_bytes(what: &str, e: &[u8], g: &[u8]) -> Option<String> {
	if e == g {
		return None;
	}
	let i = (0..4096).find(|&i| e[i] != g[i]).unwrap();
	Some(format!("{} at index {} ({},{},{}): expected {}, found {}", what, i,
		i & 15, i >> 4 & 15, i >> 8, e[i], g[i]))
}

pub fn cmp_params(e: &Block, g: &Block) -> Option<String> {
	cmp_bytes("param1", &e.p1, &g.p1)
		.or_else(|| cmp_bytes("param2", &e.p2, &g.p2))
}

/// Metadata without any variables or inventory lists counts as absent.
pub fn cmp_meta(e: &Block, g: &Block) -> Option<String> {
	let mut keys: Vec<u16> = e.meta.keys().chain(g.meta.keys()).copied().collect();
	keys.sort_unstable();
	keys.dedup();
	for k in keys {
		let em = e.meta.get(&k).filter(|m| !m.is_empty());
		let gm = g.meta.get(&k).filter(|m| !m.is_empty());
		match (em, gm) {
			(None, None) => (),
			(Some(_), None) => return Some(format!("metadata at {} lost", k)),
			(None, Some(_)) =>
				return Some(format!("unexpected metadata at {}", k)),
			(Some(a), Some(b)) if a != b => {
				if a.inv != b.inv {
					return Some(format!("inventory at {}: expected {}, \
						found {}", k, show(&a.inv), show(&b.inv)));
				}
				let mut vk: Vec<_> = a.vars.keys().chain(b.vars.keys()).collect();
				vk.sort();
				vk.dedup();
				for v in vk {
					if a.vars.get(v) != b.vars.get(v) {
						let f = |x: Option<&(Vec<u8>, bool)>| x.map_or(
							"<none>".into(),
							|x| format!("{} (private={})", show(&x.0), x.1));
						return Some(format!("metadata variable {} at {}: \
							expected {}, found {}", show(v), k,
							f(a.vars.get(v)), f(b.vars.get(v))));
					}
				}
			},
			_ => ()
		}
	}
	None
}

pub fn cmp_objs(e: &Block, g: &Block) -> Option<String> {
	let (mut a, mut b) = (e.objs.clone(), g.objs.clone());
	a.sort();
	b.sort();
	if a == b {
		return None;
	}
	for o in &a {
		let n = |l: &[Obj]| l.iter().filter(|x| *x == o).count();
		if n(&a) != n(&b) {
			return Some(format!("static object type {} at {:?} data {}: \
				expected {} times, found {}", o.ty, o.pos, show(&o.data),
				n(&a), n(&b)));
		}
	}
	Some(format!("static objects: expected {}, found {}", a.len(), b.len()))
}

pub fn cmp_timers(e: &Block, g: &Block) -> Option<String> {
	let (mut a, mut b) = (e.timers.clone(), g.timers.clone());
	a.sort();
	b.sort();
	if a == b { None }
	else { Some(format!("node timers: expected {:?}, found {:?}",
		&a[..a.len().min(8)], &b[..b.len().min(8)])) }
}

pub fn cmp_header(e: &Block, g: &Block) -> Option<String> {
	let f = |b: &Block| (b.version, b.flags, b.lighting, b.timestamp);
	if f(e) == f(g) { None }
	else { Some(format!("(version, flags, lighting, timestamp): expected \
		{:?}, found {:?}", f(e), f(g))) }
}

pub fn cmp_block(e: &Block, g: &Block) -> Option<String> {
	cmp_header(e, g)
		.or_else(|| cmp_nodes(e, g))
		.or_else(|| cmp_params(e, g))
		.or_else(|| cmp_meta(e, g))
		.or_else(|| cmp_objs(e, g))
		.or_else(|| cmp_timers(e, g))
}
