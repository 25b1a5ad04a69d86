//! Something else happens to the map while a command is running: the command is
//! halted at a chosen file operation, somebody else acts, and it goes on. The
//! outcome must be that of the successful ones one after the other.

use std::path::Path;
use crate::checks::*;
use crate::crash::{self, SUB, store};
use crate::ffi::Db;
use crate::gen::{self, Cfg};
use crate::model::{self, Cmd, K};
use crate::src::Src;
use crate::world::{self, Out, World};

const MASKS: [(u32, &str); 7] = [(64, "before a lock"), (32, "before a read"),
	(1, "before a write"), (16, "before creating a file"), (4, "before a sync"),
	(128, "at the prompt"), (64 | 32 | 1 | 8 | 16 | 2, "before any operation")];

#[derive(Clone)]
enum Edit {
	Del(i64),
	Put(i64, Vec<u8>),
}

enum Other {
	/// Another instance of the program, on the main or the input map.
	Run(Cmd, &'static str),
	/// An SQL transaction on a map, begun and finished in the pause.
	Sql(Vec<Edit>, &'static str),
	/// Begun in the pause, and committed after the command.
	Late(Vec<Edit>, &'static str),
	/// A reader staying there.
	Reader(&'static str),
}

impl Other {
	fn name(&self) -> &'static str {
		match self {
			Other::Run(_, MAP) => "second instance",
			Other::Run(..) => "second instance on the input map",
			Other::Sql(_, MAP) => "writer",
			Other::Sql(..) => "writer of the input map",
			Other::Late(_, MAP) => "writer committing later",
			Other::Late(..) => "writer of the input map committing later",
			Other::Reader(_) => "reader",
		}
	}
}

fn apply(db: &Db, edits: &[Edit]) -> Result<(), String> {
	for e in edits {
		match e {
			Edit::Del(k) => db.exec(&format!("DELETE FROM blocks WHERE pos={}", k))?,
			Edit::Put(k, v) => {
				let st = db.prepare("INSERT OR REPLACE INTO blocks VALUES (?, ?)")?;
				st.bind_i64(1, *k);
				st.bind_blob(2, v);
				st.step()?;
			},
		}
	}
	Ok(())
}

fn sql(path: &Path, edits: &[Edit], begin: &str) -> Result<(), String> {
	let db = Db::open(path.to_str().unwrap(), false)?;
	db.exec(begin)?;
	apply(&db, edits)?;
	db.exec("COMMIT")
}

fn run_on(ctx: &Ctx, file: &str, c: &Cmd) -> Out {
	let mut a = vec!["-y".to_string(), format!("{}/{}", SUB, file)];
	a.extend(c.args());
	ctx.env.run(&a, None, &[])
}

fn ok(out: &Out, what: &str) -> Result<bool, String> {
	if out.done() && !out.error_reported() { return Ok(true); }
	if !out.error_reported() {
		return Err(format!("{} failed silently: {}", what, out.brief()));
	}
	Ok(false)
}

type State = (Rows, Rows);

fn state(dir: &Path) -> Result<State, String> {
	Ok((world::read_db(&dir.join(MAP))?, world::read_db(&dir.join(IN))?))
}

fn same(a: &State, b: &State) -> Result<(), String> {
	same_content(&a.0, &b.0, "map")?;
	if a.1 != b.1 { same_content(&a.1, &b.1, "input map")?; }
	Ok(())
}

fn edits(s: &mut Src, w: &World, pool: &World, b: world::V3) -> Vec<Edit> {
	let mut v: Vec<Edit> = w.rows.keys().copied().collect::<Vec<_>>().iter()
		.filter_map(|&k| if s.chance(1, 3) { Some(Edit::Del(k)) } else { None })
		.collect();
	for r in pool.rows.values() {
		let near = w.rows.keys().copied().collect::<Vec<_>>();
		let k = if !near.is_empty() && s.bool() { *s.pick(&near) }
			else { world::key_of([b[0], b[1], b[2] + s.range(0, 1)]) };
		v.push(Edit::Put(k, r.bytes.clone()));
	}
	v
}

pub fn c29_interleaved(s: &mut Src, ctx: &Ctx) -> Res {
	let cfg = Cfg { big: 0, max_blocks: 12, avg_blocks: 5, ungen: 0, bad: 2,
		..Cfg::default() };
	let b = gen::base(s);
	let mut w = gen::world(s, &cfg, b);
	let mut input = gen::input_world(s, &Cfg { max_blocks: 8, ..cfg.clone() }, &w, b);
	let cmd = |s: &mut Src| {
		let k = if s.chance(1, 3) { K::Overlay } else { *s.pick(&model::ALL) };
		let mut c = gen::cmd(s, k, &w, b);
		if k == K::Overlay {
			c.input_map = Some(format!("{}/{}", SUB, IN));
			if !c.invert && s.bool() { c.offset = Some(gen::offset(s)); }
		}
		if !gen::dst_ok(&c) {
			c.offset = if k == K::Clone { Some([0, 16, 0]) } else { None };
			if !gen::dst_ok(&c) { c.offset = Some([0, -16, 0]); }
		}
		c
	};
	let c = cmd(s);
	let wal = [s.chance(2, 5), s.chance(2, 5)];
	let (mask, when) = *s.pick(&MASKS);
	let target = if c.k == K::Overlay && s.bool() { IN } else { MAP };
	let other = match s.weighted(&[3, 3, 2, 1]) {
		0 => {
			let mut d = cmd(s);
			if target == IN && d.k == K::Overlay { d.k = K::Fill;
				d = gen::cmd(s, K::Fill, &input, b); }
			Other::Run(d, target)
		},
		k @ (1 | 2) => {
			let pool = gen::world(s, &Cfg { max_blocks: 3, avg_blocks: 2,
				..cfg.clone() }, b);
			let e = edits(s, if target == MAP { &w } else { &input }, &pool, b);
			if k == 1 { Other::Sql(e, target) } else { Other::Late(e, target) }
		},
		_ => Other::Reader(target),
	};

	w.opts.wal = false;
	input.opts.wal = false;
	// The files.
	let dir = ctx.env.path(SUB);
	let _ = std::fs::remove_dir_all(&dir);
	std::fs::create_dir_all(&dir).unwrap();
	for (f, w, wal) in [(MAP, &w, wal[0]), (IN, &input, wal[1])] {
		world::write_db(&dir.join(f), w).expect("cannot write map");
		if wal {
			let db = Db::open(dir.join(f).to_str().unwrap(), false).unwrap();
			db.exec("PRAGMA journal_mode=WAL").expect("WAL");
			db.exec("CREATE TABLE x(y)").expect("WAL");
			db.exec("DROP TABLE x").expect("WAL");
		}
	}
	let files = crash::load(&dir);
	let mut label = "";
	let mut reached = false;
	let mut both = false;
	let mut nontrivial = false;
	let show = format!("`{}`{}, {}, with a {}{}", c.show(), if wal[0] { " (WAL)" }
		else { "" }, when, other.name(), match &other {
			Other::Run(d, _) => format!(" `{}`", d.show()),
			_ => String::new() });

	let fail = (|| -> Result<(), String> {
		// What each does alone, and one after the other.
		let do_a = || ok(&run_on(ctx, MAP, &c), "the command");
		let do_b = || match &other {
			Other::Run(d, f) => ok(&run_on(ctx, f, d), "the second command"),
			Other::Sql(e, f) | Other::Late(e, f) => {
				sql(&dir.join(f), e, "BEGIN IMMEDIATE")?;
				Ok(true)
			},
			Other::Reader(_) => Ok(true),
		};
		let serial = |first_a: bool, second: bool| -> Result<State, String> {
			store(&dir, &files);
			let f = |a: bool| -> Result<(), String> {
				if !(if a { do_a()? } else { do_b()? }) {
					return Err("fails on its own".into());
				}
				Ok(())
			};
			f(first_a)?;
			if second { f(!first_a)?; }
			state(&dir)
		};
		let none = { store(&dir, &files); state(&dir)? };
		let n = {
			store(&dir, &files);
			count(ctx, &c, mask)
		};
		store(&dir, &files);
		let at = if n == 0 { 0 } else if s.chance(1, 4) { n - 1 - s.below(n.min(4)) }
			else { s.below(n) };

		// The run with both.
		let sync = ctx.env.path("sync");
		let paused = ctx.env.path("sync.paused");
		let go = ctx.env.path("sync.go");
		let _ = std::fs::remove_file(&paused);
		let _ = std::fs::remove_file(&go);
		let mut args = vec![format!("{}/{}", SUB, MAP)];
		args.extend(c.args());
		if mask != 128 { args.insert(0, "-y".into()); }
		let vars: Vec<(String, String)> = [
			("LD_PRELOAD", ctx.shim.to_str().unwrap()),
			("VH_DIR", dir.to_str().unwrap()),
			("SQLITE_TMPDIR", ctx.env.dir.to_str().unwrap()),
			("TMPDIR", ctx.env.dir.to_str().unwrap()),
			("VH_MODE", "4"), ("VH_MASK", &mask.to_string()),
			("VH_AT", &at.to_string()), ("VH_SYNC", sync.to_str().unwrap()),
		].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
		let open = |f: &str| Db::open(dir.join(f).to_str().unwrap(), false);
		let all = |db: &Db| -> Result<Vec<String>, String> {
			db.text("SELECT pos || ' ' || hex(data) FROM blocks ORDER BY pos")
		};
		let (out, b_ok) = std::thread::scope(|sc| -> Result<(Out, bool), String> {
			let (env, args, vars) = (&ctx.env, &args, &vars);
			let h = sc.spawn(move || env.run(args, Some(b"y\n"), vars));
			while !paused.exists() && !h.is_finished() {
				std::thread::sleep(std::time::Duration::from_micros(300));
			}
			reached = paused.exists();
			let r = (|| -> Result<(Option<Db>, bool, Vec<String>), String> {
				Ok(match &other {
					Other::Run(d, f) => (None,
						ok(&run_on(ctx, f, d), "the second command")?, vec![]),
					Other::Sql(e, f) =>
						(None, sql(&dir.join(f), e, "BEGIN IMMEDIATE").is_ok(), vec![]),
					Other::Late(e, f) => {
						let db = open(f)?;
						let ok = db.exec("BEGIN IMMEDIATE").is_ok()
							&& apply(&db, e).is_ok();
						(Some(db), ok, vec![])
					},
					Other::Reader(f) => {
						let db = open(f)?;
						db.exec("BEGIN")?;
						let v = all(&db);
						(Some(db), v.is_ok(), v.unwrap_or_default())
					},
				})
			})();
			std::fs::write(&go, b"").unwrap();
			let out = h.join().unwrap();
			let (db, mut b_ok, seen) = r?;
			if let (Other::Reader(_), Some(db), true) = (&other, &db, b_ok) {
				if all(db)? != seen {
					return Err("a reader's snapshot changed under it".into());
				}
			}
			if let (Other::Late(..), Some(db), true) = (&other, &db, b_ok) {
				b_ok = db.exec("COMMIT").is_ok();
			}
			Ok((out, b_ok))
		})?;
		let a_ok = ok(&out, "the command")?;
		let got = state(&dir)?;
		world::integrity(&dir.join(MAP))?;
		world::integrity(&dir.join(IN))?;
		let left = crash::load(&dir);

		let is_reader = matches!(other, Other::Reader(_));
		label = match (a_ok, b_ok) {
			(true, true) => "both succeed",
			(true, false) => "only the command succeeds",
			(false, true) => "only the other succeeds",
			(false, false) => "both fail",
		};
		both = a_ok && b_ok && !is_reader;
		let mut allowed = match (a_ok, b_ok && !is_reader) {
			(false, false) => vec![none.clone()],
			(true, false) => vec![serial(true, false)?],
			(false, true) => vec![serial(false, false)?],
			(true, true) => vec![serial(true, true)?],
		};
		if both && same(&allowed[0], &got).is_err() {
			allowed.push(serial(false, true)?);
		}
		nontrivial = reached && allowed[0] != none;
		let e: Vec<String> = allowed.iter().filter_map(|x| same(x, &got).err())
			.collect();
		if e.len() == allowed.len() {
			return Err(format!("{}, but the result is not that: {}", label,
				e.join(" / ")));
		}
		// The map is usable afterwards.
		if !a_ok {
			store(&dir, &left);
			let w2 = to_world(&got.0, &w.opts);
			let i2 = to_world(&got.1, &input.opts);
			let pl = model::plan(&w2, if c.k == K::Overlay { Some(&i2) } else { None },
				&c);
			if !do_a()? { return Err("the command still fails afterwards".into()); }
			model::verify(&w2, &pl, &state(&dir)?.0)?;
		}
		Ok(())
	})().map_err(|e| format!("{}: {}", show, e)).err();
	let _ = std::fs::remove_dir_all(&dir);
	Res {
		fail,
		nontrivial,
		labels: vec![c.k.name(), when, other.name(), label, if reached { "interleaved" }
			else { "one after the other" }, if wal[0] { "WAL map" }
			else { "rollback-journal map" }],
		desc: format!("{}  ON  {}", show, gen::describe(&w)),
		hash: hash_case(&w, Some(&input), &[&c]) ^ hash_bytes(mask as u64,
			show.as_bytes()),
		..Res::default()
	}
}

fn count(ctx: &Ctx, c: &Cmd, mask: u32) -> u64 {
	if mask == 128 { return 1; }
	crash::count_ops(ctx, c, mask)
}
