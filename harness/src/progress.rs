//! The progress display tells the truth.

use std::collections::BTreeMap;
use crate::checks::*;
use crate::codec::EncOpts;
use crate::effects::bulky;
use crate::gen::{self, Cfg};
use crate::model::{self, Cmd, K};
use crate::src::{Rng, Src};
use crate::world::{DbOpts, Row, St, World, key_of, pos_of};

/// One state of the display.
#[derive(Debug)]
enum Shown {
	Found(u64),
	/// Percentage, filled and all places of the bar, seconds elapsed and remaining
	Done(f64, usize, usize, i64, Option<i64>),
	/// Seconds elapsed
	Time(i64),
}

/// MM:SS or H:MM:SS
fn secs(t: &str) -> Option<i64> {
	let p: Vec<&str> = t.trim().split(':').collect();
	if p.len() < 2 || p.len() > 3 { return None; }
	let mut v = 0;
	for (i, x) in p.iter().enumerate() {
		let n: i64 = x.parse().ok()?;
		if i > 0 && (n > 59 || x.len() != 2) { return None; }
		v = v * 60 + n;
	}
	if p.len() == 2 && v >= 3600 { return None; }
	Some(v)
}

fn parse(l: &str) -> Option<Shown> {
	if let Some(n) = l.strip_prefix("Querying mapblocks... ") {
		return n.strip_suffix(" found.")?.parse().ok().map(Shown::Found);
	}
	if let Some(t) = l.strip_prefix("Processing... ") {
		return secs(t.strip_suffix(" elapsed")?).map(Shown::Time);
	}
	let (bar, l) = l.strip_prefix('[')?.split_once(']')?;
	let (p, l) = l.split_once("% | ")?;
	let (e, l) = l.split_once(" elapsed | ")?;
	let r = l.strip_suffix(" remaining")?;
	let r = if r == "--:--" { None } else { Some(secs(r)?) };
	let full = bar.len() - bar.trim_start_matches('=').len();
	if bar[full..].trim() != "" { return None; }
	Some(Shown::Done(p.trim().parse().ok()?, full, bar.len(), secs(e)?, r))
}

fn long_case(s: &mut Src) -> (World, Option<World>, Cmd) {
	let k = *s.pick(&[K::Clone, K::Overlay, K::Fill, K::ReplaceNodes, K::SetParam2,
		K::DeleteMeta, K::SetMetaVar, K::ReplaceInInv, K::DeleteObjects,
		K::DeleteTimers]);
	let n = 1200 + s.below(500) as i64;
	let v = *s.pick(&[29u8, 28, 25]);
	let bad = *s.pick(&[0u64, 0, 30, 100]);
	let mut r = Rng::new(s.seed());
	let mut w = World { rows: BTreeMap::new(), opts: DbOpts::default() };
	let pool: Vec<Row> = (0..24).map(|_| {
		let b = bulky(&mut r, v);
		Row { bytes: b.encode(&EncOpts { level: 1, ..EncOpts::default() }),
			st: St::Good(Box::new(b)) }
	}).collect();
	for i in 0..n {
		let mut row = pool[r.below(24) as usize].clone();
		if r.below(100) < bad {
			row.bytes.truncate(row.bytes.len() - 9);
			row.bytes[0] = 77;
			row.st = St::Bad;
		}
		w.rows.insert(key_of([i % 20, i / 20 % 4, i / 80]), row);
	}
	let mut c = Cmd::new(k);
	let some = |v: &str| Some(v.to_string());
	match k {
		K::Clone => c.offset = Some(*s.pick(&[[0i64, 0, 16], [16, 0, 0], [3, 0, 0]])),
		K::Overlay => {
			c.input_map = some(IN);
			if s.bool() { c.offset = Some([16, 0, 0]); }
		},
		K::Fill => c.new_node = some("m:c"),
		K::ReplaceNodes => { c.node = some("m:a"); c.new_node = some("m:c"); },
		K::SetParam2 => { c.node = some("m:a"); c.param2 = Some(3); },
		K::SetMetaVar => { c.key = some("infotext"); c.value = some("other"); },
		K::ReplaceInInv => { c.item = some("m:i"); c.new_item = some("m:j"); },
		_ => (),
	}
	if matches!(k, K::Fill | K::Clone) || s.bool() {
		c.p1 = Some([0; 3]);
		c.p2 = Some([319, 63, 16 * (n / 80) + 15]);
	}
	let i = if k == K::Overlay { Some(w.clone()) } else { None };
	(w, i, c)
}

pub fn c33_progress(s: &mut Src, ctx: &Ctx) -> Res {
	let long = s.chance(1, 16);
	let (mut w, input, c) = if long { long_case(s) }
		else if s.chance(1, 12) {
			let b = gen::base(s);
			(gen::world(s, &Cfg::default(), b), None, Cmd::new(K::Vacuum))
		} else {
			let big = s.chance(1, 6);
			let cfg = Cfg { avg_blocks: if big { 40 } else { 5 },
				max_blocks: if big { 90 } else { 14 }, bad: *s.pick(&[0, 10, 60]),
				..Cfg::default() };
			any_case(s, &cfg, &model::ALL[..11])
		};
	if !long && s.chance(1, 8) {
		// Also whole pages of 1024 rows
		let n = if s.bool() { 900 + s.below(2500) } else {
			(*s.pick(&[1024u64, 2048, 3072]) + s.below(4) - 2)
				.saturating_sub(w.rows.len() as u64)
		};
		let mut r = Rng::new(s.seed());
		for i in 0..n as i64 {
			let p = [i % 60 - 30, 30, i / 60 - 30];
			let b = [24u8, 0, r.below(9) as u8];
			w.rows.entry(key_of(p)).or_insert(Row { bytes: b.to_vec(), st: St::Bad });
		}
	}
	let warp = if long { *s.pick(&[200u64, 1000, 20_000]) }
		else { *s.pick(&[1u64, 300, 1000, 20_000, 200_000, 10_000_000]) };
	let (pm, us) = if long { (1000u64, 100 + s.below(200)) }
		else { *s.pick(&[(0u64, 0u64), (30, 3000), (300, 200), (1000, 100)]) };
	let seed = s.seed();
	let pl = model::plan(&w, input.as_ref(), &c);
	let mut gone = 0;
	let (mut est, mut mid) = (0, 0);
	let mut show = String::new();
	let fail = (|| -> Result<(), String> {
		let mut a = vec!["-y".to_string(), MAP.to_string()];
		a.extend(c.args());
		setup(ctx, &w, input.as_ref());
		let log = ctx.env.path("stamps");
		let _ = std::fs::remove_file(&log);
		let v = |n: &str, p: String| (n.to_string(), p);
		let mut vars = vec![v("LD_PRELOAD", ctx.shim.to_str().unwrap().into()),
			v("VH_MODE", "1".into()), v("VH_DIR", ctx.env.dir.to_str().unwrap().into()),
			v("VH_STAMP", log.to_str().unwrap().into()),
			v("VH_DELAY", format!("{}:{}:{}", pm, us, seed % 1_000_000_007))];
		if warp > 1 { vars.push(v("VH_WARP", warp.to_string())); }
		let out = ctx.env.run(&a, None, &vars);
		show = format!("mapeditr {} with the clock {} times as fast, {} in 1000 \
			operations delayed by up to {} us", a.join(" "), warp, pm, us);
		let err = |e: String| Err(format!("{}: {}", show, e));
		if out.panicked() { return err(format!("crashed: {}", out.brief())); }
		if !out.done() || out.error_reported() {
			return err(format!("failed: {}", out.brief()));
		}
		// Times and numbers of file operations at each output
		let st: Vec<(usize, i64, i64)> = std::fs::read_to_string(&log)
			.map_err(|e| e.to_string())?.lines().filter_map(|l| {
				let v: Vec<i64> = l.split(' ').filter_map(|n| n.parse().ok()).collect();
				if v.len() == 3 { Some((v[0] as usize, v[1], v[2])) } else { None }
			}).collect();
		let total: usize = st.iter().map(|x| x.0).sum();
		if total != out.stdout.len() {
			return err(format!("{} bytes of output, {} noted", out.stdout.len(), total));
		}
		// Which output a byte belongs to: its index in `st`
		let which = |off: usize| {
			let mut end = 0;
			st.iter().position(|x| { end += x.0; off < end }).unwrap()
		};
		let mut items = vec![];
		let mut off = 0;
		for l in out.stdout.split(['\n', '\r']) {
			let t = l.trim_end();
			if let Some(x) = parse(t) { items.push((which(off), x)); }
			else if t.starts_with('[') || t.starts_with("Querying ")
				|| t.starts_with("Processing")
			{
				return err(format!("shows {:?}", t));
			}
			off += l.len() + 1;
		}
		let all = || items.iter().map(|i| format!("{:?}", i.1)).rev().take(40)
			.collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(", ");
		if items.is_empty() { return err("no progress shown".into()); }

		// How many mapblocks
		if c.k != K::Vacuum {
			let rows = if c.k == K::Overlay && c.offset.is_none() {
				&input.as_ref().unwrap().rows } else { &w.rows };
			let area = match c.offset {
				Some(o) => c.area().map(|a| a.shift(o)), None => c.area() };
			let (mut lo, mut hi) = (0, 0);
			for &k in rows.keys() {
				let (any, whole) = model::block_sel(area, c.invert, pos_of(k));
				lo += whole as u64;
				hi += any as u64;
			}
			// Those without the node or object wanted may be left out.
			if c.node.is_some() || c.obj.is_some() || c.items.is_some()
				|| !c.nodes.is_empty()
			{ lo = 0; }
			if !(c.k == K::Overlay && c.offset.is_none()) {
				lo = lo.max(pl.changed as u64);
			}
			let found: Vec<u64> = items.iter().filter_map(|i| match i.1 {
				Shown::Found(n) => Some(n), _ => None }).collect();
			if let Some(n) = found.iter().find(|&&n| n > hi) {
				return err(format!("shows that {} mapblocks were found so far, but {} \
					are concerned", n, hi));
			}
			let n = found.last().copied();
			match n {
				None => return err("number of mapblocks not shown".into()),
				Some(n) if n < lo || n > hi => return err(format!("shows that {} \
					mapblocks were found, but {} to {} are concerned", n, lo, hi)),
				Some(n) => gone = n,
			}
			let last = items.iter().filter_map(|i| match i.1 {
				Shown::Done(p, ..) => Some(p), _ => None }).last();
			if gone > 0 && last != Some(100.0) {
				return err(format!("progress at the end is {:?}: {}", last, all()));
			}
		}

		// Times; each state was shown after the output before it.
		let ns = |i: usize| st[i].1 as f64 / 1e9;
		let q = items[0].0;
		let (q_lo, q_hi) = if c.k == K::Vacuum { (ns(0), ns(q)) }
			else { (ns(q.max(1) - 1), ns(q)) };
		let edit = items.iter().find(|i| matches!(i.1, Shown::Done(..))).map(|i| i.0);
		for (i, x) in &items {
			let (lo, hi) = (ns(i.max(&1) - 1), ns(*i));
			let e = match *x {
				Shown::Found(_) => continue,
				Shown::Time(e) | Shown::Done(_, _, _, e, _) => e as f64,
			};
			if e > hi - q_lo || e + 1.0 < lo - q_hi {
				return err(format!("shows {:?}, but between {:.1} and {:.1} seconds have \
					passed", x, lo - q_hi, hi - q_lo));
			}
			if let Shown::Done(p, full, bar, _, r) = *x {
				let share = full as f64 / bar as f64 - p / 100.0;
				if bar == 0 || share.abs() > 1.0 / bar as f64 + 0.001 || p > 100.0 {
					return err(format!("shows {:?}", x));
				}
				if r.is_none() && p > 10.05 {
					return err(format!("no estimate: {:?}", x));
				}
				if let Some(r) = r {
					est += 1;
					let ed = edit.unwrap();
					let (p_lo, p_hi) = ((p - 0.0501).max(0.01) / 100.0,
						((p + 0.0501) / 100.0).min(1.0));
					let a = ((lo - ns(ed)).max(0.0)) * (1.0 - p_hi) / p_hi;
					let b = (hi - ns(ed.max(1) - 1)) * (1.0 - p_lo) / p_lo;
					if (r as f64) < a * 0.999 - 1.0 || r as f64 > b * 1.001 + 1.0 {
						return err(format!("shows {:?}, but {:.1} to {:.1} seconds would \
							be in proportion to the time since editing began", x, a, b));
					}
				}
			}
		}

		// Half-way: share of the blocks done, and of the reading and writing done
		if long {
			let d: Vec<(f64, i64)> = items.iter().filter_map(|i| match i.1 {
				Shown::Done(p, ..) => Some((p / 100.0, st[i.0].2)), _ => None }).collect();
			if d.len() > 40 {
				let (a, b) = (d[0].1 as f64, d[d.len() - 1].1 as f64);
				if b - a > 300.0 {
					let mut off: Vec<f64> = d.iter()
						.map(|x| (x.0 - (x.1 as f64 - a) / (b - a)).abs()).collect();
					off.sort_by(|x, y| x.total_cmp(y));
					let m = off[off.len() / 2];
					mid += 1;
					if std::env::var_os("VH_MEM").is_some() {
						eprintln!("{} {} {:.3} {:.3}", c.show(), d.len(), m, off[off.len() - 1]);
					}
					if m > 0.2 {
						return err(format!("shown percentages and the work done differ by \
							{:.0} % (median): {}", m * 100.0, all()));
					}
				}
			}
		}
		Ok(())
	})().err();
	Res {
		fail,
		nontrivial: gone > 0 || c.k == K::Vacuum,
		labels: vec![c.k.name(), if long { "long run" } else { "short run" },
			match warp { 1 => "true clock", 2..=20_000 => "fast clock",
				_ => "very fast clock" },
			if est > 3 { "estimates shown" } else { "no or few estimates" },
			if mid > 0 { "course compared with the work" } else { "only start and end" }],
		desc: format!("{}  ON  {} rows", show, w.rows.len()),
		hash: hash_case(&w, input.as_ref(), &[&c]) ^ seed,
		..Res::default()
	}
}
