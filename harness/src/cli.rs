//! Properties of the command line, database opening and locking.

use std::path::Path;
use crate::checks::*;
use crate::codec::EncOpts;
use crate::ffi::Db;
use crate::gen::{self, Cfg};
use crate::model::{self, Cmd, K};
use crate::src::Src;
use crate::world::{self, Out, Row, St, World, key_of};

fn small() -> Cfg {
	Cfg { big: 0, avg_blocks: 2, max_blocks: 4, bad: 0, ungen: 0, ..Cfg::default() }
}

fn sv(a: &[&str]) -> Vec<String> { a.iter().map(|s| s.to_string()).collect() }

fn snapshot(dir: &Path) -> Vec<(String, Vec<u8>)> {
	fn rec(d: &Path, pre: &str, v: &mut Vec<(String, Vec<u8>)>) {
		for e in std::fs::read_dir(d).unwrap() {
			let e = e.unwrap();
			let n = format!("{}{}", pre, e.file_name().to_string_lossy());
			if e.path().is_dir() {
				v.push((format!("{}/", n), vec![]));
				rec(&e.path(), &format!("{}/", n), v);
			} else {
				v.push((n, std::fs::read(e.path()).unwrap_or_default()));
			}
		}
	}
	let mut v = vec![];
	rec(dir, "", &mut v);
	v.sort();
	v
}

fn diff(a: &[(String, Vec<u8>)], b: &[(String, Vec<u8>)]) -> Option<String> {
	for (n, d) in a {
		match b.iter().find(|x| x.0 == *n) {
			None => return Some(format!("{} was removed", n)),
			Some(x) if x.1 != *d => return Some(format!("{} was modified", n)),
			_ => ()
		}
	}
	// SQLite's own side files of a map in WAL mode hold no data when empty.
	let side = |x: &(String, Vec<u8>)| x.0.ends_with("-shm")
		|| x.0.ends_with("-wal") && x.1.is_empty();
	b.iter().find(|x| !side(x) && !a.iter().any(|y| y.0 == x.0))
		.map(|x| format!("{} was created", x.0))
}

fn clean(ctx: &Ctx) {
	for e in std::fs::read_dir(&ctx.env.dir).unwrap() {
		let p = e.unwrap().path();
		if p.is_dir() { let _ = std::fs::remove_dir_all(&p); }
		else { let _ = std::fs::remove_file(&p); }
	}
}

fn must_reject(ctx: &Ctx, what: &str, args: &[String], out: &Out,
	before: &[(String, Vec<u8>)]) -> Result<(), String>
{
	let show = args.join(" ");
	if let Some(d) = diff(before, &snapshot(&ctx.env.dir)) {
		return Err(format!("{}: `mapeditr {}` must be rejected, but {}", what, show,
			d));
	}
	if out.done() {
		return Err(format!("{}: `mapeditr {}` must be rejected, but ran", what,
			show));
	}
	if !out.error_reported() {
		return Err(format!("{}: `mapeditr {}` was not reported as an error ({})",
			what, show, out.brief()));
	}
	if out.panicked() {
		return Err(format!("{}: `mapeditr {}` crashes instead of being rejected \
			({})", what, show, out.brief()));
	}
	Ok(())
}

/// A command that is valid, and the pieces to break it.
pub fn c23_args(s: &mut Src, ctx: &Ctx) -> Res {
	clean(ctx);
	let cfg = small();
	let b = gen::base(s);
	let w = gen::world(s, &cfg, b);
	let input = gen::world(s, &cfg, b);
	let k = *s.pick(&model::ALL);
	let mut c = gen::cmd(s, k, &w, b);
	if !gen::dst_ok(&c) { c.offset = Some([0, if b[1] > 0 { -16 } else { 16 }, 0]); }
	let has_area = !matches!(k, K::Vacuum);
	let lim = |s: &mut Src| *s.pick(&[31001i64, -31001, 31016, 62000, -40000,
		2147483647, -2147483648]);
	let mut what = "";
	let mut accept = false;
	let kind = s.below(16);
	let mut args: Option<Vec<String>> = None;
	if kind == 15 { return c23_help(s, ctx, &w, &c); }
	match kind {
		0 if has_area => { // A corner outside the map
			what = "area corner outside the map";
			let (p1, p2) = (c.p1.unwrap_or([0; 3]), c.p2.unwrap_or([5; 3]));
			let (mut p1, mut p2) = (p1, p2);
			let ax = s.below(3) as usize;
			if s.bool() { p1[ax] = lim(s); } else { p2[ax] = lim(s); }
			c.p1 = Some(p1);
			c.p2 = Some(p2);
		},
		1 if has_area => {
			what = "invert without an area";
			c.p1 = None;
			c.p2 = None;
			c.invert = true;
			if k == K::SetParam2 { c.node = Some("a:b".into()); }
			c.offset = if k == K::Clone { c.offset } else { None };
		},
		2 if has_area => {
			what = "only one corner";
			let p = c.p1.unwrap_or([1, 2, 3]);
			c.invert = false;
			if k == K::SetParam2 { c.node = Some("a:b".into()); }
			if s.bool() { c.p1 = Some(p); c.p2 = None; }
			else { c.p1 = None; c.p2 = Some(p); }
		},
		3 if has_area => {
			what = "malformed coordinates";
			c.p1 = None;
			c.p2 = None;
			c.invert = false;
			let mut a = c.args();
			let bad: &[&str] = *s.pick(&[&["1.5", "0", "0"][..], &["a", "0", "0"],
				&["1", "2"], &["1", "2", "3", "4"], &["99999999999", "0", "0"],
				&["", "0", "0"], &["1,2,3", "0", "0"], &["0x10", "0", "0"],
				&["1e3", "0", "0"], &["--", "0", "0"]]);
			let first = s.bool();
			let good = ["0", "0", "0"];
			// A fourth value would be taken as a positional argument by
			// commands that have some left.
			if bad.len() == 4 && matches!(k, K::SetMetaVar | K::ReplaceInInv
				| K::DeleteObjects) { what = ""; }
			a.push("--p1".into());
			a.extend(sv(if first { bad } else { &good }));
			a.push("--p2".into());
			a.extend(sv(if first { &good } else { bad }));
			if !what.is_empty() { args = Some(a); }
		},
		4 if matches!(k, K::Clone | K::Overlay) => {
			c.invert = false;
			match s.below(3) {
				0 => {
					what = "offset too large";
					let mut o = [0i64; 3];
					o[s.below(3) as usize] = *s.pick(&[62001, -62001, 70000,
						2147483647, -2147483648]);
					c.offset = Some(o);
				},
				1 => {
					what = "destination outside the map";
					let ax = s.below(3) as usize;
					let (mut p1, mut p2) = ([0i64; 3], [10i64; 3]);
					p1[ax] = s.range(-31000, 31000);
					p2[ax] = s.range(-31000, 31000);
					let (lo, hi) = (p1[ax].min(p2[ax]), p1[ax].max(p2[ax]));
					let mut o = [0i64; 3];
					o[ax] = if s.bool() { 31001 - lo } else { -31001 - hi };
					if o[ax].abs() > 62000 { what = ""; }
					c.p1 = Some(p1);
					c.p2 = Some(p2);
					c.offset = Some(o);
				},
				_ if k == K::Overlay => {
					what = "inverted selection with an offset";
					c.p1 = Some([0; 3]);
					c.p2 = Some([20; 3]);
					c.invert = true;
					let o = gen::offset(s);
					c.offset = Some(o);
				},
				_ => {
					what = "clone without offset";
					c.offset = None;
				},
			}
		},
		5 => { // Invalid names
			let bad = s.pick(&["stone", "Default:stone", "default:sto-ne",
				"default:a:b", "my mod:node", "default", "d\u{e9}fault:stone",
				"default:sto ne", "Air", "AIR", "def.ault:stone", "default:n\u{f6}de"])
				.to_string();
			what = "invalid name";
			match k {
				K::Fill => c.new_node = Some(bad),
				K::ReplaceNodes => if s.bool() { c.node = Some(bad) }
					else { c.new_node = Some(bad) },
				K::SetParam2 | K::DeleteMeta | K::DeleteTimers => c.node = Some(bad),
				K::DeleteObjects => if s.bool() {
					c.items = None;
					c.obj = Some(bad)
				} else {
					c.obj = None;
					let mut v = vec!["a:b".to_string(); s.usize_to(2)];
					v.insert(s.usize_to(v.len()), bad);
					c.items = Some(v);
				},
				K::ReplaceInInv => match s.below(3) {
					0 => c.item = Some(bad),
					1 => { c.delete = false; c.new_item = Some(bad); },
					_ => c.nodes = vec!["a:b".into(), bad],
				},
				K::SetMetaVar => c.nodes = vec![bad, "a:b".into()],
				_ => what = "",
			}
		},
		6 => { // Rules of single commands
			match k {
				K::ReplaceNodes => {
					what = "same node twice";
					c.new_node = c.node.clone();
				},
				K::ReplaceInInv => {
					c.delete_meta = false;
					match s.below(3) {
						0 => {
							what = "nothing to replace with";
							c.new_item = None;
							c.delete = false;
						},
						1 => {
							what = "delete and new item";
							c.new_item = Some("b:a".into());
							c.delete = true;
							c.delete_meta = s.bool();
						},
						_ => {
							what = "same item";
							c.new_item = c.item.clone();
							c.delete = false;
						},
					}
				},
				K::SetMetaVar => match s.below(3) {
					0 => {
						what = "neither value nor delete";
						c.value = None;
						c.delete = false;
					},
					1 => {
						what = "value and delete";
						c.value = Some("v".into());
						c.delete = true;
					},
					_ => {
						what = "empty value";
						c.value = Some("".into());
						c.delete = false;
					},
				},
				K::SetParam2 => {
					what = "no area and no node";
					c.p1 = None;
					c.p2 = None;
					c.invert = false;
					c.node = None;
				},
				K::DeleteObjects => {
					what = "--obj and --items";
					c.obj = Some("a:b".into());
					c.items = Some(if s.bool() { vec![] } else { vec!["a:b".into()] });
				},
				K::Fill | K::Clone | K::DeleteBlocks => {
					what = "missing area";
					c.p1 = None;
					c.p2 = None;
					c.invert = false;
				},
				_ => (),
			}
		},
		7 if k == K::SetParam2 => {
			what = "param2 out of range";
			c.param2 = None;
			let mut a = c.args();
			a.insert(1, s.pick(&["256", "-1", "abc", "1.5", "1000", "", "0x1",
				"99999999999999999999"]).to_string());
			args = Some(a);
		},
		8 => { // Missing or superfluous arguments
			let mut a = c.args();
			match s.below(4) {
				0 => {
					what = "unknown option";
					a.push("--no-such-option".into());
				},
				1 => {
					what = "unknown command";
					a[0] = s.pick(&["no_such", "Fill", "delete", "fil",
						"deletemetas"]).to_string();
				},
				2 if !matches!(k, K::DeleteMeta | K::DeleteObjects | K::DeleteTimers
					| K::Vacuum | K::Clone | K::DeleteBlocks) =>
				{
					what = "missing positional argument";
					if k == K::Overlay { c.input_map = None; }
					c.new_node = None;
					if k == K::ReplaceNodes && s.bool() { c.node = None; }
					c.item = None; c.new_item = None;
					c.key = None; c.value = None;
					c.param2 = None;
					a = c.args();
				},
				_ => {
					what = "superfluous positional argument";
					if matches!(k, K::SetMetaVar | K::ReplaceInInv) {
						c.value = Some("v".into());
						c.delete = false;
						if k == K::ReplaceInInv {
							c.value = None;
							c.new_item = Some("b:a".into());
						}
						a = c.args();
					}
					a.insert(1, "extra:arg".into());
					if matches!(k, K::DeleteObjects | K::DeleteMeta) { what = ""; }
				},
			}
			args = Some(a);
		},
		9 if has_area => { // Boundary values that must be accepted
			what = "map limits";
			accept = true;
			let e = |s: &mut Src| *s.pick(&[31000i64, -31000, 0, 30992, -30993]);
			let (p1, p2) = ([e(s), e(s), e(s)], [e(s), e(s), e(s)]);
			if k == K::Clone || (k == K::Overlay && s.bool()) {
				c.invert = false;
				let mut o = [0i64; 3];
				let ax = s.below(3) as usize;
				let (lo, hi) = (p1[ax].min(p2[ax]), p1[ax].max(p2[ax]));
				o[ax] = if s.bool() { 31000 - lo } else { -31000 - hi };
				c.offset = Some(o);
			} else {
				c.offset = None;
			}
			c.p1 = Some(p1);
			c.p2 = Some(p2);
		},
		10 if k == K::Overlay => {
			what = "inverted selection with a zero offset";
			accept = true;
			let (p1, p2) = gen::corners(s, &w, b);
			c.p1 = Some(p1);
			c.p2 = Some(p2);
			c.invert = true;
			c.offset = Some([0; 3]);
		},
		11 => {
			what = "not UTF-8";
			let mut a = c.args();
			let i = s.usize_to(a.len() - 1);
			let mut at = s.usize_to(a[i].chars().count());
			if a[i].starts_with("--") && s.chance(3, 4) { at = a[i].len(); }
			let mut t: Vec<char> = a[i].chars().collect();
			t.insert(at, world::RAW);
			a[i] = t.into_iter().collect();
			args = Some(a);
		},
		12 => {
			let mut a = c.args();
			let opts: Vec<usize> = (0..a.len()).filter(|&i| ["--p1", "--p2",
				"--offset", "--node", "--nodes", "--items", "--obj", "--invert",
				"--delete", "--deletemeta"].contains(&a[i].as_str())).collect();
			if !opts.is_empty() {
				what = "repeated option";
				let i = *s.pick(&opts);
				let n = match a[i].as_str() { "--p1" | "--p2" | "--offset" => 4,
					"--node" | "--obj" => 2,
					"--nodes" => 2,
					_ => 1 };
				let again: Vec<String> = a[i..i + n].to_vec();
				a.extend(again);
				args = Some(a);
			}
		},
		13 => {
			let mut a = c.args();
			let opts: Vec<usize> = (0..a.len()).filter(|&i| a[i] == "--node"
				|| a[i] == "--obj").collect();
			what = "valid command";
			accept = true;
			if !opts.is_empty() {
				what = "option and value in one argument";
				let i = *s.pick(&opts);
				let v = a.remove(i + 1);
				a[i] = format!("{}={}", a[i], v);
				args = Some(a);
			}
		},
		_ => {
			what = "valid command";
			accept = true;
		},
	}
	let args = args.unwrap_or_else(|| c.args());
	let show = args.iter().map(|a| a.chars().take(40).collect::<String>())
		.collect::<Vec<_>>().join(" ");
	let mut r = Res {
		nontrivial: !what.is_empty(),
		labels: vec![k.name(), if accept { "must be accepted" }
			else if what.is_empty() { "not applicable" } else { what }],
		desc: format!("{}: mapeditr -y map.sqlite {}", what, show),
		hash: hash_bytes(hash_world(kind, &w), args.join("\0").as_bytes()),
		..Res::default()
	};
	if what.is_empty() { return r; }
	setup(ctx, &w, Some(&input));
	let before = snapshot(&ctx.env.dir);
	if accept {
		let inp = if k == K::Overlay { Some(&input) } else { None };
		let pl = model::plan(&w, inp, &c);
		let out = ctx.env.run_cmd(MAP, &args);
		r.fail = finish(ctx, &c, out).and_then(|(_, after)|
			model::verify(&w, &pl, &after)
				.map_err(|e| format!("{}: after `{}`: {}", what, show, e))).err();
	} else {
		let out = ctx.env.run_cmd(MAP, &args);
		r.fail = must_reject(ctx, what, &args, &out, &before).err();
	}
	r
}

/// Asking for help shows it, and does nothing else.
fn c23_help(s: &mut Src, ctx: &Ctx, w: &World, c: &model::Cmd) -> Res {
	let flag = s.pick(&["-h", "--help"]).to_string();
	let name = c.k.name().to_string();
	let mut usage = true;
	let mut of_cmd = true;
	let args: Vec<String> = match s.below(7) {
		0 => { of_cmd = false; vec![flag] },
		1 => { of_cmd = false; vec!["help".into()] },
		2 => vec!["help".into(), name],
		3 => { // In front of the arguments of a command
			let mut a = vec!["-y".into(), MAP.into()];
			a.extend(c.args());
			a.insert(3, flag);
			a
		},
		4 => { of_cmd = false; vec!["-y".into(), flag, MAP.into()] },
		5 => {
			of_cmd = false;
			usage = false;
			vec![s.pick(&["-V", "--version"]).to_string()]
		},
		_ => vec!["-y".into(), MAP.into(), name, flag],
	};
	setup(ctx, w, None);
	let before = snapshot(&ctx.env.dir);
	let out = ctx.env.run(&args, None, &[]);
	let show = format!("`mapeditr {}`", args.join(" "));
	let fail = (|| {
		if let Some(d) = diff(&before, &snapshot(&ctx.env.dir)) {
			return Err(format!("{} asks for help, but {}", show, d));
		}
		if out.code != Some(0) || out.panicked() || out.error_reported() {
			return Err(format!("{} fails: {}", show, out.brief()));
		}
		if !out.stdout.contains(if usage { "USAGE" } else { "MapEditr " }) {
			return Err(format!("{} shows nothing of use: {}", show, out.brief()));
		}
		// Options documented in the manual are in the help.
		let missing = c.args().into_iter().find(|a| a.starts_with("--")
			&& !out.stdout.contains(a.as_str()));
		match missing {
			Some(a) if of_cmd => Err(format!("{} does not mention the option {} \
				of {}", show, a, c.k.name())),
			_ => Ok(())
		}
	})().err();
	Res {
		fail,
		nontrivial: true,
		labels: vec![c.k.name(), "help"],
		desc: show,
		hash: hash_bytes(hash_world(15, w), args.join("\0").as_bytes()),
		..Res::default()
	}
}

pub fn c24_confirm(s: &mut Src, ctx: &Ctx) -> Res {
	clean(ctx);
	let cfg = small();
	let b = gen::base(s);
	let w = gen::world(s, &cfg, b);
	let input = gen::world(s, &cfg, b);
	let k = *s.pick(&model::ALL);
	let mut c = gen::cmd(s, k, &w, b);
	if !gen::dst_ok(&c) { c.offset = Some([0, if b[1] > 0 { -16 } else { 16 }, 0]); }
	let flag = s.chance(1, 6);
	let answer: Vec<u8> = match s.weighted(&[3, 4, 1, 2]) {
		0 => s.pick(&[&b"y\n"[..], b"Y\n", b"y", b" y \n", b"Y\r\n", b"\ty\n",
			b"y\nn\n"]).to_vec(),
		1 => s.pick(&[&b"n\n"[..], b"\n", b"", b"yes\n", b"N\n", b"yy\n", b"no\n",
			b"yes please\n", b"ye\n", b"n\ny\n", b"\ny\n", b"-y\n", b"1\n",
			b"true\n", b"q\n", b"y n\n", b"YES\n", b"ny\n", b"y.\n", b"j\n"]).to_vec(),
		2 => { let n = s.usize_to(8); gen::rand_bytes(s.seed(), n) },
		_ => {
			let n = s.usize_to(3);
			let mut v: Vec<u8> = (0..n).map(|_| *s.pick(b"yYnN \t")).collect();
			v.push(b'\n');
			v
		},
	};
	let answer = match s.word() {
		Some(mut w) => { w.push(b'\n'); w },
		None => answer,
	};
	let line: Vec<u8> = answer.split(|&c| c == b'\n').next().unwrap().to_vec();
	let yes = String::from_utf8(line).map_or(false,
		|l| l.trim() == "y" || l.trim() == "Y");
	let proceed = flag || yes;
	let inp = if k == K::Overlay { Some(&input) } else { None };
	let pl = model::plan(&w, inp, &c);
	setup(ctx, &w, Some(&input));
	let before = snapshot(&ctx.env.dir);
	let mut args = vec![MAP.to_string()];
	args.extend(c.args());
	if flag {
		let f = s.pick(&["-y", "--yes"]).to_string();
		// Global: before the command, or (where it cannot be mistaken for a
		// value) right after it.
		if s.bool() { args.insert(2, f) } else { args.insert(0, f) }
	}
	let out = ctx.env.run(&args, Some(&answer), &[]);
	let show = format!("mapeditr {} with input {:?}",
		args.iter().map(|a| a.chars().take(40).collect::<String>())
		.collect::<Vec<_>>().join(" "), String::from_utf8_lossy(&answer));
	let warnings = out.stdout.matches("warning: ").count();
	let everything = k == K::DeleteMeta && c.p1.is_none() && c.node.is_none();
	let fail = (|| -> Result<(), String> {
		if warnings < everything as usize + !flag as usize {
			return Err(format!("{}: has not warned of its consequences: {}", show,
				out.brief()));
		}
		if proceed {
			if out.panicked() || !out.done() || out.error_reported() {
				return Err(format!("{}: was confirmed, but failed: {}", show,
					out.brief()));
			}
			let after = world::read_db(&ctx.env.path(MAP))?;
			model::verify(&w, &pl, &after)
				.map_err(|e| format!("{}: {}", show, e))
		} else {
			if let Some(d) = diff(&before, &snapshot(&ctx.env.dir)) {
				return Err(format!("{}: was not confirmed, but {}", show, d));
			}
			if out.done() {
				return Err(format!("{}: was not confirmed, but reports being \
					done", show));
			}
			Ok(())
		}
	})().err();
	Res {
		fail,
		nontrivial: pl.changed > 0 || k == K::Vacuum,
		labels: vec![k.name(), if flag { "-y" } else if yes { "confirmed" }
			else { "declined" }],
		desc: show,
		hash: hash_bytes(hash_case(&w, None, &[&c]), &answer),
		..Res::default()
	}
}

const DAMAGE: u64 = 18;

/// Make something that is not a map database at `path`. Returns a description.
fn not_a_map(s: &mut Src, path: &Path, w: &World) -> &'static str {
	let k = s.below(DAMAGE);
	let mk = |sql: &str| {
		let db = Db::open(path.to_str().unwrap(), true).unwrap();
		db.exec(sql).unwrap();
	};
	match k {
		0 => { std::fs::write(path, b"").unwrap(); "empty file" },
		1 => {
			let n = 1 + s.usize_to(9000);
			std::fs::write(path, gen::rand_bytes(s.seed(), n)).unwrap();
			"random bytes"
		},
		2 => {
			mk("CREATE TABLE other (pos INT PRIMARY KEY, data BLOB); \
				INSERT INTO other VALUES (0, x'1c');");
			"no blocks table"
		},
		3 => {
			mk("CREATE TABLE blocks (x INTEGER, y INTEGER, z INTEGER, \
				data BLOB NOT NULL, PRIMARY KEY (x, z, y)); \
				INSERT INTO blocks VALUES (0, 0, 0, x'1c');");
			"newer schema with separate coordinates"
		},
		4 => {
			mk("CREATE TABLE blocks (pos TEXT PRIMARY KEY, data BLOB); \
				INSERT INTO blocks VALUES ('0', x'1c');");
			"text positions"
		},
		5 => {
			mk("CREATE TABLE blocks (pos INT PRIMARY KEY, data TEXT); \
				INSERT INTO blocks VALUES (0, 'x');");
			"text data"
		},
		6 => {
			mk("CREATE TABLE blocks (data BLOB, pos INT PRIMARY KEY); \
				INSERT INTO blocks VALUES (x'1c', 0);");
			"columns swapped"
		},
		7 => {
			mk("CREATE TABLE blocks (pos INT, data BLOB); \
				INSERT INTO blocks VALUES (0, x'1c');");
			"no primary key"
		},
		8 => {
			mk("CREATE TABLE blocks (pos INT PRIMARY KEY); \
				INSERT INTO blocks VALUES (0);");
			"no data column"
		},
		9 => {
			mk("CREATE TABLE blocks (position INT PRIMARY KEY, data BLOB); \
				INSERT INTO blocks VALUES (0, x'1c');");
			"other column name"
		},
		10 => {
			world::write_db(path, w).unwrap();
			let mut v = std::fs::read(path).unwrap();
			for b in &mut v[..16] { *b ^= 0x55; }
			std::fs::write(path, v).unwrap();
			"damaged file header"
		},
		11 => {
			std::fs::write(path, &gen::rand_bytes(s.seed(), 50)).unwrap();
			"short random file"
		},
		12 => {
			mk("CREATE TABLE blocks (pos INT, data BLOB PRIMARY KEY); \
				INSERT INTO blocks VALUES (0, x'1c');");
			"primary key on data"
		},
		13 => {
			mk("CREATE TABLE blocks (pos INT, data BLOB, \
				PRIMARY KEY (data, pos)); \
				INSERT INTO blocks VALUES (0, x'1c');");
			"composite primary key"
		},
		14 => "missing file",
		15 => {
			mk("CREATE TABLE blocks (pos INT, data BLOB, \
				PRIMARY KEY (pos, data)); \
				INSERT INTO blocks VALUES (0, x'1c');");
			"primary key of both columns"
		},
		16 => {
			mk("CREATE TABLE blocks (pos BLOB PRIMARY KEY, data INT); \
				INSERT INTO blocks VALUES (0, x'1c');");
			"column types swapped"
		},
		_ => {
			std::fs::create_dir(path).unwrap();
			"directory without a map"
		},
	}
}

pub fn c27_open(s: &mut Src, ctx: &Ctx) -> Res {
	clean(ctx);
	let cfg = small();
	let b = gen::base(s);
	let w = gen::world(s, &cfg, b);
	let input = gen::world(s, &cfg, b);
	let mode = s.below(3);
	let k = if mode == 1 { K::Overlay } else { *s.pick(&model::ALL) };
	let mut c = gen::cmd(s, k, &w, b);
	if !gen::dst_ok(&c) { c.offset = Some([0, if b[1] > 0 { -16 } else { 16 }, 0]); }
	let (mut label, mut nontrivial) = ("valid map", true);
	let mut show = String::new();
	let fail = (|| -> Result<(), String> {
		match mode {
			0 | 1 => {
				let (main_ok, in_ok) = (mode == 1, mode == 0);
				if main_ok { world::write_db(&ctx.env.path(MAP), &w)?; }
				else { label = not_a_map(s, &ctx.env.path(MAP), &w); }
				if in_ok { world::write_db(&ctx.env.path(IN), &input)?; }
				else { label = not_a_map(s, &ctx.env.path(IN), &input); }
				let before = snapshot(&ctx.env.dir);
				let out = ctx.env.run_cmd(MAP, &c.args());
				show = format!("{} as {} map: {}", label,
					if main_ok { "input" } else { "main" }, c.show());
				let mut a = vec![MAP.to_string()];
				a.extend(c.args());
				must_reject(ctx, &show, &a, &out, &before)
			},
			_ => { // Every way of naming a valid map
				let dir = ctx.env.dir.clone();
				let odd = *s.pick(&["my world", "w", " w", "w ", "w%20x", "w?mode=ro",
					"w#1", "a&b=c", "file:w", "\u{416}\u{1F5FA}", "map.sqlite",
					"in.sqlite.d", "w'x", "w\"x", "[w]", "~", "$HOME", "*", "a;b",
					"w.", "-w", "files", "vac", "clones",
					"deletemap", "over lay", "file:/w", "file:w?mode=memory"]);
				let word = s.word().and_then(|w| String::from_utf8(w).ok())
					.map(|w| w.replace(['/', '\0'], ""))
					.filter(|w| !w.is_empty() && w != "." && w != ".." && w != "sub dir"
						&& !model::ALL.iter().any(|k| k.name() == w) && w != "help"
						&& w != MAP && w != IN);
				let word = word.map(|w| match s.below(3) {
					0 => w,
					1 => format!("{}x", w),
					_ => format!("x{}", w),
				});
				let odd = &word.unwrap_or_else(|| odd.replace('/', ""));
				let file = dir.join(odd).join(MAP);
				let other = dir.join(if s.bool() { "backup.db".to_string() }
					else { format!("{}.sq", odd) });
				std::fs::create_dir(dir.join(odd)).unwrap();
				world::write_db(&file, &w)?;
				world::write_db(&dir.join(IN), &input)?;
				std::fs::create_dir(dir.join("sub dir")).unwrap();
				let dash = if odd.starts_with('-') { "./" } else { "" };
				let named = |form: u64, file: &Path, other: &Path, odd: &str,
					link: &str| -> (String, std::path::PathBuf)
				{
					let at = |p: &Path| p.strip_prefix(&dir).unwrap().to_str().unwrap()
						.to_string();
					let mv = || std::fs::rename(file, other).unwrap();
					let ln = |to: &str| std::os::unix::fs::symlink(to, dir.join(link))
						.unwrap();
					let (arg, end) = match form {
						0 => (odd.to_string(), file),
						1 => (format!("{}/map.sqlite", odd), file),
						2 => { mv(); (at(other), other) },
						3 => (dir.join(odd).to_str().unwrap().to_string(), file),
						4 => { mv(); (other.to_str().unwrap().to_string(), other) },
						5 => (format!("./sub dir/../{}/", odd), file),
						6 => { ln(odd); (link.to_string(), file) },
						7 => { mv(); ln(&at(other)); (link.to_string(), other) },
						_ => (format!("./{}/./map.sqlite", odd), file),
					};
					(arg, end.to_path_buf())
				};
				let form = s.below(9);
				let (mut arg, end) = named(form, &file, &other, odd, "link");
				if arg.starts_with('-') { arg = format!("{}{}", dash, arg); }
				// The input map likewise.
				if k == K::Overlay && s.bool() {
					let iw = dir.join("in world");
					std::fs::create_dir(&iw).unwrap();
					std::fs::rename(dir.join(IN), iw.join(MAP)).unwrap();
					let f = s.below(9);
					let (a, _) = named(f, &iw.join(MAP), &dir.join("in ?.sqlite"),
						"in world", "in link");
					c.input_map = Some(a);
					label = "valid map, input map named differently";
				}
				show = format!("map given as {:?}: {}", arg, c.show());
				let inp = if k == K::Overlay { Some(&input) } else { None };
				let pl = model::plan(&w, inp, &c);
				nontrivial = pl.changed > 0;
				let out = ctx.env.run_cmd(&arg, &c.args());
				if out.panicked() || !out.done() || out.error_reported() {
					return Err(format!("{}: failed: {}", show, out.brief()));
				}
				let after = world::read_db(&end)?;
				model::verify(&w, &pl, &after).map_err(|e| format!("{}: {}",
					show, e))
			},
		}
	})().err();
	clean(ctx);
	Res {
		fail, nontrivial,
		labels: vec![k.name(), label],
		desc: show,
		hash: hash_case(&w, Some(&input), &[&c]) ^ mode ^ hash_bytes(0, label.as_bytes()),
		..Res::default()
	}
}

/// Another connection holds a lock on the map (or the input map).
pub fn c29_in_use(s: &mut Src, ctx: &Ctx) -> Res {
	if s.chance(2, 3) { crate::conc::c29_interleaved(s, ctx) }
	else { c29_locked(s, ctx) }
}

/// Vacuum has done its work.
pub fn compact(c: &Cmd, path: &Path) -> Result<(), String> {
	if c.k != K::Vacuum { return Ok(()); }
	let f = Db::open(path.to_str().unwrap(), false)?.text("PRAGMA freelist_count")?;
	if f == ["0"] { Ok(()) } else { Err(format!("{} unused pages left", f[0])) }
}

fn c29_locked(s: &mut Src, ctx: &Ctx) -> Res {
	clean(ctx);
	let mut cfg = small();
	cfg.max_blocks = 12;
	cfg.avg_blocks = 5;
	let b = gen::base(s);
	let mut w = gen::world(s, &cfg, b);
	// Sometimes more dirty pages than SQLite's cache holds.
	let spill = s.chance(1, 10);
	if spill {
		let mut blk = gen::block(s, &Cfg { meta: 0, objs: 0, timers: 0, odd: 0,
			..small() }, b);
		blk.flags &= !8;
		for i in 0..350u64 {
			blk.p1 = gen::rand_bytes(i + 1, 4096);
			blk.p2 = gen::rand_bytes(i + 5000, 4096);
			let p = [b[0] + 3 + (i % 20) as i64, b[1], b[2] + (i / 20) as i64];
			if p.iter().any(|v| v.abs() > 1937) { continue; }
			w.rows.insert(key_of(p), Row { bytes: blk.encode(&EncOpts::default()),
				st: St::Good(Box::new(blk.clone())) });
		}
	}
	let input = gen::world(s, &cfg, b);
	let mut k = *s.pick(&model::ALL);
	if spill && s.bool() { k = K::Fill; }
	if k == K::Vacuum { w.opts.junk = 1 + s.below(20) as u32; }
	let mut c = gen::cmd(s, k, &w, b);
	if spill && k == K::Fill {
		c.p1 = Some([-31000; 3]);
		c.p2 = Some([31000; 3]);
		c.invert = false;
	}
	if !gen::dst_ok(&c) { c.offset = Some([0, if b[1] > 0 { -16 } else { 16 }, 0]); }
	let inp = if k == K::Overlay { Some(&input) } else { None };
	let pl = model::plan(&w, inp, &c);
	let lock = *s.pick(&["EXCLUSIVE", "IMMEDIATE", "SHARED", "SHARED"]);
	setup(ctx, &w, Some(&input));
	let before: Rows = w.rows.iter().map(|(k, r)| (*k, r.bytes.clone())).collect();
	let path = ctx.env.path(MAP);
	let fail = (|| -> Result<(), String> {
		let db = Db::open(path.to_str().unwrap(), false)?;
		match lock {
			"SHARED" => {
				db.exec("BEGIN")?;
				db.text("SELECT count(*) FROM blocks")?;
			},
			l => db.exec(&format!("BEGIN {}", l))?,
		}
		let out = ctx.env.run_cmd(MAP, &c.args());
		let now = db.text("SELECT count(*) FROM blocks")?;
		if now != [before.len().to_string()] {
			return Err(format!("`{}` changed the map under a {} lock held by \
				someone else", c.show(), lock));
		}
		db.exec("COMMIT")?;
		drop(db);
		let after = world::read_db(&path)?;
		let clean_done = out.done() && !out.error_reported();
		if clean_done {
			return model::verify(&w, &pl, &after)
				.and_then(|_| compact(&c, &path)).map_err(|e| format!("`{}` \
				reported success while the map was locked ({}), but: {}",
				c.show(), lock, e));
		}
		if after != before {
			return Err(format!("`{}` on a locked map ({}) failed, but left a \
				changed map", c.show(), lock));
		}
		if !out.error_reported() {
			return Err(format!("`{}` on a locked map ({}) failed silently: {}",
				c.show(), lock, out.brief()));
		}
		world::integrity(&path)?;
		// Works again once the lock is gone.
		let (_, rows) = step(ctx, &c)?;
		model::verify(&w, &pl, &rows).map_err(|e| format!("`{}` after the lock \
			was released: {}", c.show(), e))
	})().err();
	Res {
		fail,
		nontrivial: pl.changed > 0,
		labels: vec![k.name(), match lock { "SHARED" => "reader", "IMMEDIATE"
			=> "writer", _ => "exclusive" }, if spill { "larger than the cache" }
			else { "small" }],
		desc: format!("{} lock held; {}  ON  {}", lock, c.show(),
			gen::describe(&w)),
		hash: hash_case(&w, Some(&input), &[&c]) ^ lock.len() as u64,
		..Res::default()
	}
}

#[allow(dead_code)]
fn unused(_: &Cmd) {}
