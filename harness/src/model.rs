//! Reference model of every command, at the level of named nodes and decoded
//! mapblocks. Written from Manual.md.

use std::collections::{BTreeMap, HashMap};
use crate::codec::{self, Block, Obj};
use crate::world::{St, World, V3, pos_of, key_of};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum K {
	Clone, DeleteBlocks, DeleteMeta, DeleteObjects, DeleteTimers, Fill, Overlay,
	ReplaceInInv, ReplaceNodes, SetMetaVar, SetParam2, Vacuum,
}

pub const ALL: [K; 12] = [K::Clone, K::DeleteBlocks, K::DeleteMeta,
	K::DeleteObjects, K::DeleteTimers, K::Fill, K::Overlay, K::ReplaceInInv,
	K::ReplaceNodes, K::SetMetaVar, K::SetParam2, K::Vacuum];

impl K {
	pub fn name(self) -> &'static str {
		match self {
			K::Clone => "clone", K::DeleteBlocks => "deleteblocks",
			K::DeleteMeta => "deletemeta", K::DeleteObjects => "deleteobjects",
			K::DeleteTimers => "deletetimers", K::Fill => "fill",
			K::Overlay => "overlay", K::ReplaceInInv => "replaceininv",
			K::ReplaceNodes => "replacenodes", K::SetMetaVar => "setmetavar",
			K::SetParam2 => "setparam2", K::Vacuum => "vacuum",
		}
	}
}

#[derive(Clone, Debug)]
pub struct Cmd {
	pub k: K,
	/// As given on the command line: any two opposite corners.
	pub p1: Option<V3>,
	pub p2: Option<V3>,
	pub invert: bool,
	pub offset: Option<V3>,
	pub node: Option<String>,
	pub nodes: Vec<String>,
	pub new_node: Option<String>,
	pub obj: Option<String>,
	pub items: Option<Vec<String>>,
	pub item: Option<String>,
	pub new_item: Option<String>,
	pub delete: bool,
	pub delete_meta: bool,
	pub key: Option<String>,
	pub value: Option<String>,
	pub param2: Option<u8>,
	pub input_map: Option<String>,
	/// Permutation seed for option order on the command line.
	pub order: u64,
}

impl Cmd {
	pub fn new(k: K) -> Self {
		Cmd { k, p1: None, p2: None, invert: false, offset: None, node: None,
			nodes: vec![], new_node: None, obj: None, items: None, item: None,
			new_item: None, delete: false, delete_meta: false, key: None,
			value: None, param2: None, input_map: None, order: 0 }
	}

	pub fn area(&self) -> Option<Area> {
		match (self.p1, self.p2) {
			(Some(a), Some(b)) => Some(Area::new(a, b)),
			_ => None
		}
	}

	pub fn args(&self) -> Vec<String> {
		let mut a = vec![self.k.name().to_string()];
		let node_positional = self.k == K::ReplaceNodes;
		// Positional arguments, in the documented order.
		if let Some(m) = &self.input_map { a.push(m.clone()); }
		if node_positional {
			if let Some(n) = &self.node { a.push(n.clone()); }
		}
		if let Some(n) = &self.new_node { a.push(n.clone()); }
		if let Some(n) = &self.item { a.push(n.clone()); }
		if let Some(n) = &self.new_item { a.push(n.clone()); }
		if let Some(n) = &self.key { a.push(n.clone()); }
		if let Some(n) = &self.value { a.push(n.clone()); }
		if let Some(n) = self.param2 { a.push(n.to_string()); }
		let mut opts: Vec<Vec<String>> = vec![];
		let pos = |n: &str, p: V3| vec![n.to_string(), p[0].to_string(),
			p[1].to_string(), p[2].to_string()];
		if let Some(p) = self.p1 { opts.push(pos("--p1", p)); }
		if let Some(p) = self.p2 { opts.push(pos("--p2", p)); }
		if let Some(p) = self.offset { opts.push(pos("--offset", p)); }
		if self.invert { opts.push(vec!["--invert".into()]); }
		if let (Some(n), false) = (&self.node, node_positional) {
			opts.push(vec!["--node".into(), n.clone()]);
		}
		if !self.nodes.is_empty() {
			let mut v = vec!["--nodes".to_string()];
			v.extend(self.nodes.iter().cloned());
			opts.push(v);
		}
		if let Some(n) = &self.obj {
			opts.push(vec!["--obj".into(), n.clone()]);
		}
		if let Some(i) = &self.items {
			let mut v = vec!["--items".to_string()];
			v.extend(i.iter().cloned());
			opts.push(v);
		}
		if self.delete { opts.push(vec!["--delete".into()]); }
		if self.delete_meta { opts.push(vec!["--deletemeta".into()]); }
		let mut r = crate::src::Rng::new(self.order);
		if self.order != 0 {
			for i in (1..opts.len()).rev() {
				opts.swap(i, r.below(i as u64 + 1) as usize);
			}
		}
		// The manual shows options before the positional arguments too. Not
		// after an option with any number of values, which would take them.
		let free = opts.iter().position(|o| o[0] == "--nodes"
			|| o[0] == "--items").unwrap_or(opts.len());
		if self.order % 3 == 1 && free > 0 && a.len() > 1 {
			let mut at: Vec<usize> = a[1..].iter()
				.map(|_| r.below(free as u64 + 1) as usize).collect();
			at.sort_unstable();
			for (p, i) in a.split_off(1).into_iter().zip(at).rev() {
				opts.insert(i, vec![p]);
			}
		}
		a.extend(opts.into_iter().flatten());
		a
	}

	pub fn show(&self) -> String {
		self.args().iter().map(|a| if a.len() > 60 {
			format!("{}..({} chars)", &a[..a.char_indices().nth(30)
				.map_or(a.len(), |c| c.0)], a.len())
		} else { a.clone() }).collect::<Vec<_>>().join(" ")
	}
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Area {
	pub lo: V3,
	pub hi: V3,
}

impl Area {
	pub fn new(a: V3, b: V3) -> Self {
		let f = |i: usize| (a[i].min(b[i]), a[i].max(b[i]));
		let (x, y, z) = (f(0), f(1), f(2));
		Area { lo: [x.0, y.0, z.0], hi: [x.1, y.1, z.1] }
	}
	pub fn has(&self, p: V3) -> bool {
		(0..3).all(|i| self.lo[i] <= p[i] && p[i] <= self.hi[i])
	}
	pub fn block_inside(&self, b: V3) -> bool {
		(0..3).all(|i| self.lo[i] <= b[i] * 16 && b[i] * 16 + 15 <= self.hi[i])
	}
	pub fn block_touches(&self, b: V3) -> bool {
		(0..3).all(|i| self.lo[i] <= b[i] * 16 + 15 && b[i] * 16 <= self.hi[i])
	}
	pub fn shift(&self, o: V3) -> Self {
		Area { lo: add(self.lo, o), hi: add(self.hi, o) }
	}
	pub fn volume(&self) -> i64 {
		(0..3).map(|i| self.hi[i] - self.lo[i] + 1).product()
	}
}

pub fn add(a: V3, b: V3) -> V3 { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn sub(a: V3, b: V3) -> V3 { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }

pub fn idx_pos(block: V3, i: usize) -> V3 {
	[block[0] * 16 + (i & 15) as i64, block[1] * 16 + (i >> 4 & 15) as i64,
		block[2] * 16 + (i >> 8 & 15) as i64]
}

/// What a row must be after the command.
#[derive(Clone, Debug)]
pub enum Exp {
	/// Byte-identical (or still absent).
	Same,
	Absent,
	/// Decodes to this content.
	Is(Box<Block>),
	Bytes(Vec<u8>),
	/// Nodes, params and metadata as in `.0`; header, objects and timers may
	/// come from `.0` or `.1` (partial overlay: documented as "may be copied").
	Merge(Box<Block>, Box<Block>),
	Any(Vec<Exp>),
	Free,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Report {
	/// Numbers the command must report, in order.
	pub nums: Vec<u64>,
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
	pub exp: BTreeMap<i64, Exp>,
	pub report: Option<Report>,
	/// Rows whose content changes.
	pub changed: usize,
	/// Rows only partly selected by the area.
	pub partial: usize,
}

fn sel(area: Option<Area>, invert: bool, p: V3) -> bool {
	match area {
		None => true,
		Some(a) => a.has(p) != invert,
	}
}

/// How much of a block is selected: (any, all).
pub fn block_sel(area: Option<Area>, invert: bool, b: V3) -> (bool, bool) {
	match area {
		None => (true, true),
		Some(a) if invert => (!a.block_inside(b), !a.block_touches(b)),
		Some(a) => (a.block_touches(b), a.block_inside(b)),
	}
}

pub fn replace_inv(inv: &[u8], item: &[u8], new: Option<&[u8]>, delete: bool,
	del_meta: bool) -> (Vec<u8>, u64)
{
	let mut out = vec![];
	let mut n = 0;
	let body = inv.strip_suffix(b"\n").unwrap_or(inv);
	for line in body.split(|&c| c == b'\n') {
		let mut f = line.splitn(5, |&c| c == b' ');
		if f.next() != Some(b"Item") || f.next() != Some(item) {
			out.extend_from_slice(line);
			out.push(b'\n');
			continue;
		}
		n += 1;
		let rest: Vec<&[u8]> = f.collect();
		if delete {
			out.extend_from_slice(b"Empty\n");
			continue;
		}
		out.extend_from_slice(b"Item ");
		out.extend_from_slice(new.unwrap_or(item));
		if del_meta {
			// Count and wear stay; default values are left out.
			let count = rest.first().copied().unwrap_or(b"1");
			let wear = rest.get(1).copied().unwrap_or(b"0");
			if wear != b"0" {
				out.push(b' ');
				out.extend_from_slice(count);
				out.push(b' ');
				out.extend_from_slice(wear);
			} else if count != b"1" {
				out.push(b' ');
				out.extend_from_slice(count);
			}
		} else {
			for r in rest {
				out.push(b' ');
				out.extend_from_slice(r);
			}
		}
		out.push(b'\n');
	}
	(out, n)
}

/// Parsed LuaEntity name and static data.
pub fn lua_entity(o: &Obj) -> Option<(Vec<u8>, Vec<u8>)> {
	if o.ty != 7 { return None; }
	let d = &o.data;
	if d.first() != Some(&1) { return None; }
	let n = u16::from_be_bytes([*d.get(1)?, *d.get(2)?]) as usize;
	let name = d.get(3..3 + n)?.to_vec();
	let p = 3 + n;
	let l = u32::from_be_bytes(d.get(p..p + 4)?.try_into().unwrap()) as usize;
	let data = d.get(p + 4..(p + 4).checked_add(l)?)?.to_vec();
	Some((name, data))
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
	h.windows(n.len()).position(|w| w == n)
}

/// Item name of a dropped item's static data.
pub fn dropped_item_name(data: &[u8]) -> Vec<u8> {
	let s: &[u8] = if data.starts_with(b"return") {
		let new = b"itemstring=\"";
		let old = b"[\"itemstring\"] = \"";
		if let Some(i) = find(data, new) {
			&data[i + new.len()..]
		} else if let Some(i) = find(data, old) {
			&data[i + old.len()..]
		} else {
			b""
		}
	} else {
		data
	};
	s.split(|&c| c == b' ' || c == b'"').next().unwrap_or(b"").to_vec()
}

pub fn obj_node_pos(o: &Obj) -> V3 {
	let f = |v: i32| (v as i64 + 5000).div_euclid(10000);
	[f(o.pos[0]), f(o.pos[1]), f(o.pos[2])]
}

pub const MAX_BLOCK: i64 = 31000 / 16;

pub fn plan(w: &World, input: Option<&World>, c: &Cmd) -> Plan {
	let mut pl = Plan::default();
	match c.k {
		K::Clone => copy(w, w, c, &mut pl),
		K::Overlay => {
			let o = c.offset.unwrap_or([0; 3]);
			if o == [0; 3] {
				overlay0(w, input.unwrap(), c, &mut pl);
			} else {
				copy(w, input.unwrap(), c, &mut pl);
			}
		},
		K::Vacuum => (),
		K::DeleteBlocks => {
			let a = c.area().unwrap();
			for &key in w.rows.keys() {
				let p = pos_of(key);
				let del = if c.invert { !a.block_touches(p) }
					else { a.block_inside(p) };
				if del {
					pl.exp.insert(key, Exp::Absent);
					pl.changed += 1;
				}
			}
		},
		_ => edit(w, c, &mut pl),
	}
	pl
}

fn edit(w: &World, c: &Cmd, pl: &mut Plan) {
	let area = c.area();
	let mut nums = vec![0u64; match c.k { K::ReplaceInInv => 2, _ => 1 }];
	let mut ambiguous = false;
	for (&key, row) in &w.rows {
		let pos = pos_of(key);
		let (any, all) = block_sel(area, c.invert, pos);
		if !any {
			continue; // Same
		}
		let b = match &row.st {
			St::Good(b) => b,
			St::Bad => continue,
			St::Gray => {
				pl.exp.insert(key, Exp::Free);
				ambiguous = true;
				continue
			},
		};
		if c.k == K::Fill && !b.generated() {
			continue;
		}
		if !all {
			pl.partial += 1;
		}
		let mut nb = b.clone();
		let mut changed = false;
		let in_sel = |i: usize| all || sel(area, c.invert, idx_pos(pos, i));
		let ids_of = |names: &[String]| -> Vec<u16> {
			names.iter().flat_map(|n| b.ids_of(n.as_bytes())).collect()
		};
		let node_ids = c.node.as_ref().map(|n| b.ids_of(n.as_bytes()));
		let nodes_ids = if c.nodes.is_empty() { None }
			else { Some(ids_of(&c.nodes)) };
		let is_node = |i: usize, ids: &Option<Vec<u16>>|
			ids.as_ref().map_or(true, |v| v.contains(&b.nodes[i]));
		match c.k {
			K::Fill => {
				let name = c.new_node.as_ref().unwrap().as_bytes();
				let mut id = None;
				for i in 0..4096 {
					if in_sel(i) {
						let id = *id.get_or_insert_with(|| nb.id_for(name));
						changed |= b.name_at_fast(i) != Some(name);
						nb.nodes[i] = id;
						nums[0] += 1;
					}
				}
			},
			K::ReplaceNodes => {
				let ids = node_ids.unwrap();
				let new = c.new_node.as_ref().unwrap().as_bytes();
				let mut id = None;
				for i in 0..4096 {
					if ids.contains(&b.nodes[i]) && in_sel(i) {
						let id = *id.get_or_insert_with(|| nb.id_for(new));
						nb.nodes[i] = id;
						nums[0] += 1;
						changed = true;
					}
				}
			},
			K::SetParam2 => {
				for i in 0..4096 {
					if is_node(i, &node_ids) && in_sel(i) {
						let v = c.param2.unwrap();
						changed |= nb.p2[i] != v;
						nb.p2[i] = v;
						nums[0] += 1;
					}
				}
			},
			K::DeleteMeta => {
				let n = nb.meta.len();
				nb.meta.retain(|&i, _| !(in_sel(i as usize)
					&& is_node(i as usize, &node_ids)));
				nums[0] += (n - nb.meta.len()) as u64;
				changed = n != nb.meta.len();
			},
			K::DeleteTimers => {
				let n = nb.timers.len();
				nb.timers.retain(|t| !(in_sel(t.0 as usize)
					&& is_node(t.0 as usize, &node_ids)));
				nums[0] += (n - nb.timers.len()) as u64;
				changed = n != nb.timers.len();
			},
			K::SetMetaVar => {
				let key = c.key.as_ref().unwrap().as_bytes();
				for (&i, m) in nb.meta.iter_mut() {
					if !in_sel(i as usize) || !is_node(i as usize, &nodes_ids)
						|| !m.vars.contains_key(key)
					{
						continue;
					}
					if c.delete {
						m.vars.remove(key);
					} else {
						m.vars.get_mut(key).unwrap().0 =
							c.value.as_ref().unwrap().as_bytes().to_vec();
					}
					nums[0] += 1;
					changed = true;
				}
			},
			K::ReplaceInInv => {
				for (&i, m) in nb.meta.iter_mut() {
					if !in_sel(i as usize) || !is_node(i as usize, &nodes_ids) {
						continue;
					}
					let (inv, n) = replace_inv(&m.inv,
						c.item.as_ref().unwrap().as_bytes(),
						c.new_item.as_ref().map(|s| s.as_bytes()),
						c.delete, c.delete_meta);
					if n > 0 {
						changed |= m.inv != inv;
						m.inv = inv;
						nums[0] += n;
						nums[1] += 1;
					}
				}
			},
			K::DeleteObjects => {
				let n = nb.objs.len();
				nb.objs.retain(|o| {
					if let Some(a) = area {
						if a.has(obj_node_pos(o)) == c.invert {
							return true;
						}
					}
					if c.items.is_none() && c.obj.is_none() {
						return false;
					}
					let (name, data) = match lua_entity(o) {
						Some(x) => x,
						None => return true,
					};
					if let Some(items) = &c.items {
						if name != b"__builtin:item" { return true; }
						if items.is_empty() { return false; }
						let item = dropped_item_name(&data);
						!items.iter().any(|i| i.as_bytes() == item)
					} else {
						name != c.obj.as_ref().unwrap().as_bytes()
					}
				});
				nums[0] += (n - nb.objs.len()) as u64;
				changed = n != nb.objs.len();
			},
			_ => unreachable!()
		}
		if changed {
			pl.changed += 1;
		}
		ambiguous |= !b.generated();
		let e = Exp::Is(nb);
		// Commands other than fill say nothing about stored blocks that are
		// not generated; both treatments are accepted.
		pl.exp.insert(key, if b.generated() { e }
			else { Exp::Any(vec![e, Exp::Same]) });
	}
	if !ambiguous {
		pl.report = Some(Report { nums });
	}
}

impl Block {
	fn name_at_fast(&self, i: usize) -> Option<&[u8]> {
		self.name_at(i)
	}
}

/// Copy one node from a source block; `map` memoises ID translation.
fn copy_node(sb: &Block, si: usize, db: &mut Block, di: usize,
	map: &mut HashMap<(i64, u16), u16>, skey: i64)
{
	let sid = sb.nodes[si];
	let id = *map.entry((skey, sid)).or_insert_with(||
		db.id_for(sb.name_of(sid).unwrap_or(b"?")));
	db.nodes[di] = id;
	db.p1[di] = sb.p1[si];
	db.p2[di] = sb.p2[si];
}

fn copy(w: &World, srcw: &World, c: &Cmd, pl: &mut Plan) {
	let o = c.offset.unwrap();
	let dst_area = c.area().map(|a| a.shift(o));
	for (&key, row) in &w.rows {
		let pos = pos_of(key);
		let (any, all) = block_sel(dst_area, false, pos);
		if !any {
			continue;
		}
		let b = match &row.st {
			St::Good(b) => b,
			St::Bad => continue,
			St::Gray => { pl.exp.insert(key, Exp::Free); continue },
		};
		if !b.generated() {
			continue;
		}
		if !all {
			pl.partial += 1;
		}
		let mut nb = b.clone();
		let mut map = HashMap::new();
		let mut any_src = false;
		let mut gray = false;
		let mut cur: Option<(i64, Option<&Block>)> = None;
		for i in 0..4096 {
			let p = idx_pos(pos, i);
			if !all && !dst_area.unwrap().has(p) {
				continue;
			}
			let sp = sub(p, o);
			let sbp: V3 = [sp[0].div_euclid(16), sp[1].div_euclid(16),
				sp[2].div_euclid(16)];
			if sbp.iter().any(|v| v.abs() > MAX_BLOCK) {
				continue;
			}
			let skey = key_of(sbp);
			if cur.map_or(true, |c| c.0 != skey) {
				let sb = match srcw.rows.get(&skey).map(|r| &r.st) {
					Some(St::Good(sb)) if sb.generated() => Some(&**sb),
					Some(St::Gray) => { gray = true; None },
					_ => None,
				};
				cur = Some((skey, sb));
			}
			if let Some(sb) = cur.unwrap().1 {
				any_src = true;
				let si = (sp[0].rem_euclid(16) + 16 * sp[1].rem_euclid(16)
					+ 256 * sp[2].rem_euclid(16)) as usize;
				copy_node(sb, si, &mut nb, i, &mut map, skey);
				match sb.meta.get(&(si as u16)) {
					Some(m) => { nb.meta.insert(i as u16, m.clone()); },
					None => { nb.meta.remove(&(i as u16)); },
				}
			}
		}
		if gray {
			pl.exp.insert(key, Exp::Free);
			continue;
		}
		if any_src && codec::cmp_block(b, &nb).is_some() {
			pl.changed += 1;
		}
		pl.exp.insert(key, Exp::Is(nb));
	}
}

fn overlay0(w: &World, input: &World, c: &Cmd, pl: &mut Plan) {
	let area = c.area();
	for (&key, srow) in &input.rows {
		let pos = pos_of(key);
		let (any, all) = block_sel(area, c.invert, pos);
		if !any {
			continue;
		}
		let drow = w.rows.get(&key);
		if all {
			match &srow.st {
				St::Good(sb) if sb.generated() => {
					if drow.map_or(true, |d| d.bytes != srow.bytes) {
						pl.changed += 1;
					}
					pl.exp.insert(key, Exp::Any(vec![
						Exp::Bytes(srow.bytes.clone()), Exp::Is(sb.clone())]));
				},
				St::Good(_) => (), // Not generated: Same.
				_ => {
					pl.exp.insert(key, Exp::Any(vec![
						Exp::Same, Exp::Bytes(srow.bytes.clone())]));
				},
			}
			continue;
		}
		pl.partial += 1;
		let drow = match drow { Some(d) => d, None => continue };
		if matches!(drow.st, St::Gray) || matches!(srow.st, St::Gray) {
			pl.exp.insert(key, if matches!(drow.st, St::Bad)
				|| matches!(srow.st, St::Bad) { Exp::Same } else { Exp::Free });
			continue;
		}
		let (db, sb) = match (drow.good(), srow.good()) {
			(Some(d), Some(s)) if d.generated() && s.generated() => (d, s),
			_ => continue,
		};
		let mut nb = db.clone();
		let mut map = HashMap::new();
		for i in 0..4096 {
			if sel(area, c.invert, idx_pos(pos, i)) {
				copy_node(sb, i, &mut nb, i, &mut map, key);
				match sb.meta.get(&(i as u16)) {
					Some(m) => { nb.meta.insert(i as u16, m.clone()); },
					None => { nb.meta.remove(&(i as u16)); },
				}
			}
		}
		if codec::cmp_block(db, &nb).is_some() {
			pl.changed += 1;
		}
		pl.exp.insert(key, Exp::Merge(Box::new(nb), Box::new(sb.clone())));
	}
}

fn check_exp(e: &Exp, before: Option<&[u8]>, after: Option<&[u8]>)
	-> Result<(), String>
{
	match e {
		Exp::Free => Ok(()),
		Exp::Same => if before == after { Ok(()) } else {
			Err(match (before, after) {
				(Some(_), None) => "row was deleted".into(),
				(None, Some(_)) => "row was created".into(),
				_ => "row that must stay as it is was changed".into(),
			})
		},
		Exp::Absent => if after.is_none() { Ok(()) }
			else { Err("row should have been deleted".into()) },
		Exp::Bytes(b) => if after == Some(b) { Ok(()) }
			else { Err("row differs from the expected bytes".into()) },
		Exp::Is(b) => {
			let a = after.ok_or("row is missing")?;
			let got = codec::decode(a, true)
				.map_err(|e| format!("row is not a valid mapblock: {}", e))?;
			codec::cmp_block(b, &got).map_or(Ok(()), Err)
		},
		Exp::Merge(b, s) => {
			let a = after.ok_or("row is missing")?;
			let got = codec::decode(a, true)
				.map_err(|e| format!("row is not a valid mapblock: {}", e))?;
			if let Some(e) = codec::cmp_nodes(b, &got)
				.or_else(|| codec::cmp_params(b, &got))
				.or_else(|| codec::cmp_meta(b, &got))
			{
				return Err(e);
			}
			if let (Some(e), Some(_)) = (codec::cmp_header(b, &got),
				codec::cmp_header(s, &got)) { return Err(e); }
			if let (Some(e), Some(_)) = (codec::cmp_objs(b, &got),
				codec::cmp_objs(s, &got)) { return Err(e); }
			if let (Some(e), Some(_)) = (codec::cmp_timers(b, &got),
				codec::cmp_timers(s, &got)) { return Err(e); }
			Ok(())
		},
		Exp::Any(v) => {
			let mut first = None;
			for x in v {
				match check_exp(x, before, after) {
					Ok(()) => return Ok(()),
					Err(e) => { first.get_or_insert(e); },
				}
			}
			Err(first.unwrap())
		},
	}
}

/// Compare the database after a command with the plan.
pub fn verify(w: &World, pl: &Plan, after: &BTreeMap<i64, Vec<u8>>)
	-> Result<(), String>
{
	let mut keys: Vec<i64> = w.rows.keys().chain(after.keys())
		.chain(pl.exp.keys()).copied().collect();
	keys.sort_unstable();
	keys.dedup();
	for k in keys {
		let e = pl.exp.get(&k).unwrap_or(&Exp::Same);
		let before = w.rows.get(&k).map(|r| r.bytes.as_slice());
		let a = after.get(&k).map(|v| v.as_slice());
		check_exp(e, before, a).map_err(|m| format!("block {:?} (version {}): {}",
			pos_of(k), before.or(a).and_then(|b| b.first().copied())
				.map_or("?".into(), |v| v.to_string()), m))?;
	}
	Ok(())
}

