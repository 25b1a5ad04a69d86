//! Fixed inputs, one for each defect found so far (see known_findings.jsonl):
//! the shrunk cases the search came up with, by hand. They run before the
//! search and cost next to nothing.

use std::collections::BTreeMap;
use crate::checks::*;
use crate::codec::{Block, EncOpts, Meta, Obj, END_INV};
use crate::gen;
use crate::model::{self, Cmd, K};
use crate::world::{key_of, Row, World, V3};

pub type Directed = fn(&Ctx) -> Result<(), String>;

pub fn cases(id: &str) -> Vec<(&'static str, Directed)> {
	let all: [(&str, &'static str, Directed); 20] = [
		("C01", "private-metadata-v27", private_v27),
		("C01", "long-strings", long_strings),
		("C01", "huge-values", huge_values),
		("C02", "long-strings", long_strings),
		("C02", "huge-values", huge_values),
		("C07", "huge-values", huge_values),
		("C02", "private-metadata-v27", private_v27),
		("C03", "not-generated", fill_ungenerated),
		("C03", "sparse-ids", sparse_ids),
		("C05", "value", setparam2_value),
		("C06", "end-of-inventory", inventory_end_meta),
		("C08", "end-of-inventory", inventory_end),
		("C09", "plain-item-string", plain_item),
		("C09", "extreme-position", extreme_pos),
		("C12", "private-metadata-v27", private_v27_clone),
		("C12", "sparse-ids", sparse_ids_clone),
		("C14", "source-not-generated", overlay_ungenerated),
		("C18", "unnamed-id", unnamed_id),
		("C18", "meta-outside", meta_outside),
		("C25", "inverted-fill", inverted_fill),
	];
	all.iter().filter(|c| c.0 == id).map(|c| (c.1, c.2)).collect()
}

fn plain(version: u8) -> Block {
	Block {
		version,
		flags: 0,
		lighting: 0xFFFF,
		timestamp: 7,
		names: vec![(0, b"default:stone".to_vec()), (1, b"air".to_vec())],
		nodes: (0..4096).map(|i| (i % 3 == 0) as u16).collect(),
		p1: vec![0; 4096],
		p2: vec![5; 4096],
		meta: BTreeMap::new(),
		objs: vec![],
		timers: vec![],
	}
}

fn put(w: &mut World, p: V3, b: &Block) {
	w.rows.insert(key_of(p), Row::classify(b.encode(&EncOpts::default())));
}

fn one(b: &Block) -> World {
	let mut w = World::default();
	put(&mut w, [0, 0, 0], b);
	w
}

fn with_area(k: K, p1: V3, p2: V3) -> Cmd {
	let mut c = Cmd::new(k);
	c.p1 = Some(p1);
	c.p2 = Some(p2);
	c
}

fn go(ctx: &Ctx, w: &World, input: Option<&World>, c: &Cmd) -> Result<(), String> {
	match run_model(ctx, w, input, c).fail {
		Some(e) => Err(e),
		None => Ok(()),
	}
}

fn meta1(k: &[u8], v: Vec<u8>, private: bool, inv: &[u8]) -> Meta {
	let mut m = Meta { vars: BTreeMap::new(), inv: inv.to_vec() };
	m.vars.insert(k.to_vec(), (v, private));
	m
}

fn setparam2_value(x: &Ctx) -> Result<(), String> {
	let mut c = with_area(K::SetParam2, [0, 0, 0], [15, 15, 15]);
	c.param2 = Some(77);
	go(x, &one(&plain(28)), None, &c)
}

fn long_strings(x: &Ctx) -> Result<(), String> {
	for &v in &[25, 28, 29] {
		let mut b = plain(v);
		b.meta.insert(3, meta1(b"k", gen::rand_bytes(5, 300_000), false, END_INV));
		b.objs.push(Obj { ty: 9, pos: [10_000, 20_000, 30_000],
			data: gen::rand_bytes(6, 65_000) });
		let mut c = with_area(K::SetParam2, [0, 0, 0], [15, 15, 14]);
		c.param2 = Some(1);
		go(x, &one(&b), None, &c)?;
	}
	Ok(())
}

/// Far more than usual, but nothing forbids it.
fn huge_values(x: &Ctx) -> Result<(), String> {
	for &v in &[25, 28, 29] {
		let mut b = plain(v);
		let mut inv = b"List main 30000\nWidth 0\n".to_vec();
		for i in 0..30_000 {
			inv.extend(format!("Item default:i{} {} 0 \"{}\"\n", i % 50, i % 99,
				"long ".repeat(i % 20)).bytes());
		}
		inv.extend(b"EndInventoryList\n");
		inv.extend(END_INV);
		b.meta.insert(3, meta1(b"k", gen::rand_bytes(5, 5_000_000), false, END_INV));
		b.meta.insert(4095, meta1(&gen::rand_bytes(7, 65_535), vec![b'x'; 17_000_000],
			false, &inv));
		let mut c = with_area(K::SetMetaVar, [-9, 0, 0], [15, 15, 14]);
		c.key = Some("k".into());
		c.value = Some("v".into());
		go(x, &one(&b), None, &c)?;
	}
	Ok(())
}

fn private_block() -> Block {
	let mut b = plain(27);
	b.meta.insert(40, meta1(b"secret", b"x".to_vec(), true, END_INV));
	b.timers.push((9, 1, 2));
	b
}

fn private_v27(x: &Ctx) -> Result<(), String> {
	go(x, &one(&private_block()), None, &Cmd::new(K::DeleteTimers))
}

fn private_v27_clone(x: &Ctx) -> Result<(), String> {
	let mut w = one(&private_block());
	put(&mut w, [1, 0, 0], &plain(25));
	let mut c = with_area(K::Clone, [0, 0, 0], [15, 15, 15]);
	c.offset = Some([16, 0, 0]);
	go(x, &w, None, &c)
}

fn fill_ungenerated(x: &Ctx) -> Result<(), String> {
	let mut b = plain(28);
	b.flags = 8;
	let mut c = with_area(K::Fill, [0, 0, 0], [7, 15, 15]);
	c.new_node = Some("a:b".into());
	go(x, &one(&b), None, &c)
}

fn sparse_block() -> Block {
	let mut b = plain(28);
	b.names[1].0 = 65535;
	b.nodes.iter_mut().filter(|n| **n == 1).for_each(|n| *n = 65535);
	b
}

fn sparse_ids(x: &Ctx) -> Result<(), String> {
	let mut c = with_area(K::Fill, [0, 0, 0], [7, 15, 15]);
	c.new_node = Some("a:b".into());
	go(x, &one(&sparse_block()), None, &c)
}

fn sparse_ids_clone(x: &Ctx) -> Result<(), String> {
	let mut w = one(&plain(29));
	put(&mut w, [1, 0, 0], &sparse_block());
	let mut c = with_area(K::Clone, [0, 0, 0], [15, 14, 15]);
	c.offset = Some([17, 0, 0]);
	go(x, &w, None, &c)?;
	c.offset = Some([-3, 0, 0]);
	c.p1 = Some([16, 0, 0]);
	c.p2 = Some([31, 15, 15]);
	go(x, &w, None, &c)
}

const TRICKY: &[u8] = b"List main 2\nWidth 0\nItem a:b 1 0 xEndInventory\n\
	Item a:b 3\nEndInventoryList\nEndInventory\n";

fn inventory_end(x: &Ctx) -> Result<(), String> {
	for &v in &[28, 29] {
		let mut b = plain(v);
		b.meta.insert(0, meta1(b"k", b"v".to_vec(), false, TRICKY));
		b.meta.insert(1, meta1(b"k", b"v".to_vec(), false, END_INV));
		let mut c = Cmd::new(K::ReplaceInInv);
		c.item = Some("a:b".into());
		c.new_item = Some("c:d".into());
		go(x, &one(&b), None, &c)?;
	}
	Ok(())
}

fn inventory_end_meta(x: &Ctx) -> Result<(), String> {
	let mut b = plain(28);
	b.meta.insert(0, meta1(b"k", b"v".to_vec(), false, TRICKY));
	b.meta.insert(1, meta1(b"k", b"v".to_vec(), false, END_INV));
	go(x, &one(&b), None, &with_area(K::DeleteMeta, [1, 0, 0], [1, 0, 0]))
}

fn lua(name: &[u8], data: &[u8]) -> Vec<u8> {
	let mut v = vec![1];
	crate::codec::s16(&mut v, name);
	crate::codec::s32(&mut v, data);
	v.extend_from_slice(&[0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
	v
}

fn plain_item(x: &Ctx) -> Result<(), String> {
	let mut b = plain(28);
	for d in [&b"a:b 2"[..], b"a:b", b"c:d 1", b"a:bb"] {
		b.objs.push(Obj { ty: 7, pos: [50_000; 3], data: lua(b"__builtin:item", d) });
	}
	let mut c = Cmd::new(K::DeleteObjects);
	c.items = Some(vec!["a:b".into()]);
	go(x, &one(&b), None, &c)
}

fn extreme_pos(x: &Ctx) -> Result<(), String> {
	let mut b = plain(28);
	for p in [[i32::MAX, i32::MIN, 0], [i32::MIN, 0, i32::MAX], [0, 0, 0]] {
		b.objs.push(Obj { ty: 7, pos: p, data: lua(b"a:b", b"") });
	}
	go(x, &one(&b), None, &with_area(K::DeleteObjects, [0, 0, 0], [8, 8, 8]))
}

fn overlay_ungenerated(x: &Ctx) -> Result<(), String> {
	let w = one(&plain(28));
	let mut b = plain(28);
	b.flags = 8;
	b.names = vec![(0, b"ignore".to_vec())];
	b.nodes = vec![0; 4096];
	let input = one(&b);
	let mut c = with_area(K::Overlay, [0, 0, 0], [7, 15, 15]);
	c.input_map = Some(IN.into());
	go(x, &w, Some(&input), &c)
}

fn nonsense(x: &Ctx, bad: &Block) -> Result<(), String> {
	let mut w = one(bad);
	put(&mut w, [1, 0, 0], &plain(28));
	for k in [K::ReplaceNodes, K::DeleteMeta, K::Fill, K::SetParam2] {
		let mut c = with_area(k, [0, 0, 0], [31, 15, 15]);
		match k {
			K::ReplaceNodes => {
				c.node = Some("air".into());
				c.new_node = Some("a:b".into());
			},
			K::Fill => {
				c.new_node = Some("a:b".into());
				c.p2 = Some([31, 15, 14]);
			},
			K::SetParam2 => c.param2 = Some(9),
			_ => (),
		}
		go(x, &w, None, &c)?;
	}
	Ok(())
}

fn unnamed_id(x: &Ctx) -> Result<(), String> {
	let mut b = plain(29);
	b.nodes[100] = 500;
	nonsense(x, &b)
}

fn meta_outside(x: &Ctx) -> Result<(), String> {
	let mut b = plain(28);
	b.meta.insert(4096, meta1(b"k", b"v".to_vec(), false, END_INV));
	nonsense(x, &b)
}

fn inverted_fill(x: &Ctx) -> Result<(), String> {
	let w = one(&plain(28));
	let mut c = with_area(K::Fill, [0, 0, 0], [3, 15, 15]);
	c.new_node = Some("a:b".into());
	c.invert = true;
	let pl = model::plan(&w, None, &c);
	let (out, after) = exec(x, &w, None, &c)?;
	model::verify(&w, &pl, &after)?;
	check_report(&pl, &out)
}
