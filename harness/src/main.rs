mod checks;
mod cli;
mod codec;
mod conc;
mod crash;
mod directed;
mod effects;
mod ffi;
mod gen;
mod lits;
mod model;
mod progress;
mod scale;
mod src;
mod world;

use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use checks::{CaseFn, Ctx, Res};
use src::{mix, shrink, Src};
use world::Env;

pub struct Prop {
	pub id: &'static str,
	pub f: CaseFn,
	/// Cases in the quick and the thorough tier.
	pub n: (u64, u64),
	pub rule: &'static str,
	pub level: &'static str,
}

const CH: &str = "the command had to change at least one stored block";

fn props() -> Vec<Prop> {
	use checks::*;
	let p = |id, f: CaseFn, q, t, rule, level| Prop { id, f, n: (q, t), rule, level };
	let e = "exploration";
	vec![
		p("C01", c01_preserve, 8000, 150_000, "at least one rewritten block carries \
			metadata, objects or timers the command had to keep", e),
		p("C02", c02_valid, 8000, 150_000, "the command wrote at least one block", e),
		p("C03", c03_fill, 8000, 150_000, CH, e),
		p("C04", c04_replacenodes, 8000, 150_000, CH, e),
		p("C05", c05_setparam2, 8000, 150_000, CH, e),
		p("C06", c06_deletemeta, 8000, 150_000, CH, e),
		p("C07", c07_setmetavar, 8000, 150_000, CH, e),
		p("C08", c08_replaceininv, 8000, 150_000, CH, e),
		p("C09", c09_deleteobjects, 8000, 150_000, CH, e),
		p("C10", c10_deletetimers, 8000, 150_000, CH, e),
		p("C11", c11_deleteblocks, 8000, 150_000, CH, e),
		p("C12", c12_clone, 8000, 150_000, CH, e),
		p("C13", scale::c13_scale, 500, 3000, CH, e),
		p("C14", c14_overlay, 8000, 150_000, CH, e),
		p("C15", c15_overlay_offset, 8000, 150_000, CH, e),
		p("C16", c16_input_untouched, 6000, 120_000, CH, e),
		p("C17", c17_vacuum, 3000, 60_000, "vacuum made the file smaller", e),
		p("C18", c18_malformed, 20_000, 150_000, "the map has at least one malformed \
			or unsupported row", e),
		p("C19", c19_area, 5000, 100_000, CH, e),
		p("C20", c20_versions, 2000, 50_000, CH, e),
		p("C21", crash::c21_crash, 400, 12_000, "crash state of a command that \
			changes the map and writes to its files", "fault_enumeration"),
		p("C22", crash::c22_faults, 1500, 40_000, "run with an injected I/O error \
			of a command that changes the map", "fault_enumeration"),
		p("C23", cli::c23_args, 10_000, 200_000, "an argument list of a stated kind \
			was built and submitted", e),
		p("C24", cli::c24_confirm, 8000, 150_000, "a confirmed run changes the \
			map", e),
		p("C25", c25_report, 8000, 150_000, "the reported count is not zero", e),
		p("C26", c26_history, 2000, 50_000, "at least two commands of the history \
			change the map", e),
		p("C27", cli::c27_open, 10000, 100_000, "an invalid database is given, or \
			the command changes the map", e),
		p("C28", c28_laws, 4000, 100_000, "the commands of the law change the map", e),
		p("C29", cli::c29_in_use, 2500, 60_000, CH, e),
		p("C30", effects::c30_only_blocks, 6000, 120_000, "the command changes the \
			map, or must not be carried out", e),
		p("C31", effects::c31_memory, 90, 2500, "peak memory measured on a map, \
			and on one three times as large", e),
		p("C32", effects::c32_timing, 5000, 100_000, CH, e),
		p("C33", progress::c33_progress, 4000, 80_000, "the command goes through \
			at least one mapblock and shows its progress", e),
	]
}

fn esc(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o += "\\\"",
			'\\' => o += "\\\\",
			'\n' => o += "\\n",
			c if (c as u32) < 32 || c as u32 == 127 =>
				o += &format!("\\u{:04x}", c as u32),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn cut(s: &str, n: usize) -> String {
	if s.chars().count() <= n { s.into() }
	else { s.chars().take(n).collect::<String>() + "..." }
}

fn avail_kb(p: &str) -> u64 {
	std::process::Command::new("df").args(["-k", "--output=avail", p]).output()
		.ok().and_then(|o| String::from_utf8_lossy(&o.stdout).split_whitespace()
			.last().and_then(|s| s.parse().ok())).unwrap_or(0)
}

fn scratch() -> PathBuf {
	let base = if avail_kb("/dev/shm") > 2_000_000 { "/dev/shm" } else { "/tmp" };
	let d = PathBuf::from(format!("{}/vh-{}", base, std::process::id()));
	std::fs::create_dir_all(&d).expect("cannot create scratch directory");
	std::fs::canonicalize(d).unwrap()
}

fn ctx(dir: PathBuf, thorough: bool) -> Ctx {
	std::fs::create_dir_all(&dir).unwrap();
	Ctx {
		env: Env {
			bin: std::env::var("VH_BIN").expect("VH_BIN").into(),
			dir,
			timeout: Duration::from_secs(60),
			hung: Default::default(),
		},
		shim: std::env::var("VH_SHIM").unwrap_or_default().into(),
		thorough,
	}
}

fn clean_dir(d: &Path) {
	if let Ok(es) = std::fs::read_dir(d) {
		for e in es.flatten() {
			let p = e.path();
			if p.is_dir() { let _ = std::fs::remove_dir_all(&p); }
			else { let _ = std::fs::remove_file(&p); }
		}
	}
}

fn run_case(f: CaseFn, src: &mut Src, c: &Ctx) -> Result<Res, String> {
	clean_dir(&c.env.dir);
	c.env.hung.store(false, Ordering::SeqCst);
	src.set_dict();
	catch_unwind(AssertUnwindSafe(|| f(src, c))).map_err(|e| {
		e.downcast_ref::<String>().cloned()
			.or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
			.unwrap_or_else(|| "panic".into())
	})
}

#[derive(Default)]
struct Stats {
	cases: u64,
	evals: u64,
	nontriv: HashSet<u64>,
	labels: BTreeMap<&'static str, u64>,
	samples: Vec<(u64, String)>,
	fails: Vec<(u64, String, Vec<u64>, Vec<(usize, usize)>, String)>,
	errors: Vec<String>,
	/// Cases with a command that did not finish.
	hung: Vec<(u64, Vec<u64>)>,
}

fn check(id: &str, tier: &str, seed: u64) -> i32 {
	let all = props();
	let p = match all.iter().find(|p| p.id == id) {
		Some(p) => p,
		None => { eprintln!("unknown property {}", id); return 2; }
	};
	let root = PathBuf::from(std::env::var("VH_ROOT").unwrap_or("/verif".into()));
	let thorough = tier == "thorough";
	let mut n = if thorough { p.n.1 } else { p.n.0 };
	if let Ok(v) = std::env::var("VH_CASES") { n = v.parse().unwrap(); }
	let cap = Duration::from_secs(std::env::var("VH_CAP").ok()
		.and_then(|v| v.parse().ok()).unwrap_or(if thorough { 3600 } else { 300 }));
	let threads = std::env::var("VH_THREADS").ok().and_then(|v| v.parse().ok())
		.unwrap_or_else(|| std::thread::available_parallelism()
			.map_or(8, |v| v.get()).min(16));
	let start = Instant::now();
	let base = scratch();
	let next = AtomicU64::new(0);
	let min_fail = AtomicU64::new(u64::MAX);
	let stats = Mutex::new(Stats::default());
	let prop_seed = mix(seed, src::mix(0x5EED, id.bytes()
		.fold(0, |a, b| a * 256 + b as u64)));
	std::panic::set_hook(Box::new(|i| eprintln!("harness: {}", i)));

	// Directed cases first: one per defect that was found and repaired.
	let dctx = ctx(base.join("directed"), thorough);
	let mut directed = 0;
	for (name, f) in directed::cases(id) {
		clean_dir(&dctx.env.dir);
		directed += 1;
		match catch_unwind(AssertUnwindSafe(|| f(&dctx))) {
			Ok(Ok(())) => (),
			Ok(Err(e)) => {
				let path = replay_path(&root, id, &format!("directed-{}", name));
				let _ = std::fs::write(&path, format!("property {}\ndirected {}\n\
					failure {}\n", id, name, e.replace('\n', " ")));
				println!("{}: {}", id, e);
				println!("VIOLATION property={} replay={}", id, path.display());
				let mut st = Stats::default();
				st.cases = directed;
				st.evals = directed;
				evidence(&root, p, tier, seed, &st, directed, 1, start);
				let _ = std::fs::remove_dir_all(&base);
				return 1;
			},
			Err(_) => stats.lock().unwrap().errors.push(format!("directed {}", name)),
		}
	}

	std::thread::scope(|sc| {
		for t in 0..threads {
			let dir = base.join(format!("t{}", t));
			let (next, min_fail, stats) = (&next, &min_fail, &stats);
			let f = p.f;
			sc.spawn(move || {
				let c = ctx(dir, thorough);
				let mut local: Vec<(u64, Res)> = vec![];
				loop {
					if start.elapsed() > cap { break; }
					let i = next.fetch_add(1, Ordering::SeqCst);
					if i >= n || i > min_fail.load(Ordering::SeqCst) { break; }
					let mut s = Src::random(mix(prop_seed, i));
					let res = run_case(f, &mut s, &c);
					if c.env.hung.load(Ordering::SeqCst) {
						stats.lock().unwrap().hung.push((i, s.log.clone()));
						min_fail.fetch_min(i, Ordering::SeqCst);
						break;
					}
					match res {
						Err(e) => {
							let mut st = stats.lock().unwrap();
							st.errors.push(format!("case {}: {}", i, e));
							if st.errors.len() > 20 { break; }
						},
						Ok(r) => {
							if let Some(e) = &r.fail {
								min_fail.fetch_min(i, Ordering::SeqCst);
								stats.lock().unwrap().fails.push((i, e.clone(),
									s.log.clone(), s.spans.clone(), r.desc.clone()));
							}
							local.push((i, r));
						},
					}
					if local.len() >= 50 { merge(stats, &mut local); }
				}
				merge(stats, &mut local);
			});
		}
	});

	let mut st = stats.into_inner().unwrap();
	let mut code = 0;
	st.fails.sort_by_key(|f| f.0);
	st.hung.sort();
	if let (true, Some((i, log))) = (st.fails.is_empty(), st.hung.first().cloned()) {
		// Once more, with nothing else running.
		eprintln!("harness: case {}: a command did not finish within 60 s", i);
		let c = ctx(base.join("hung"), thorough);
		let mut s = Src::replay(log);
		let r = run_case(p.f, &mut s, &c);
		if c.env.hung.load(Ordering::SeqCst) {
			let path = replay_path(&root, id, &format!("{}-{}", seed, i));
			let text = format!("property {}\nseed {}\nindex {}\nfailure a command \
				does not finish\ncase {}\ndictionary {}\nchoices {}\n", id, seed, i,
				r.map_or(String::new(), |r| r.desc.replace('\n', " ")), lits::to_line(),
				s.log.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(","));
			let _ = std::fs::write(&path, text);
			println!("{}: case {}: a command does not finish within 60 s", id, i);
			println!("VIOLATION property={} replay={}", id, path.display());
			code = 1;
		} else {
			match r {
				Ok(r) => if let Some(e) = r.fail {
					st.fails.push((i, e, s.log.clone(), s.spans.clone(), r.desc));
				},
				Err(e) => st.errors.push(e),
			}
		}
	}
	if let Some((i, e, log, spans, desc)) = st.fails.first().cloned() {
		println!("{}: case {} failed: {}", id, i, cut(&e, 1500));
		let c = ctx(base.join("shrink"), thorough);
		let mut last = (e, desc);
		let f = p.f;
		let small = shrink(log, spans, 500, Duration::from_secs(90), |cand| {
			let mut s = Src::replay(cand);
			match run_case(f, &mut s, &c) {
				Ok(Res { fail: Some(e), desc, .. })
					if !c.env.hung.load(Ordering::SeqCst) =>
				{
					last = (e, desc);
					Some((s.log, s.spans))
				},
				_ => None,
			}
		});
		// Describe the minimised case itself.
		let mut s = Src::replay(small.clone());
		if let Ok(Res { fail: Some(e), desc, .. }) = run_case(f, &mut s, &c) {
			last = (e, desc);
		}
		let path = replay_path(&root, id, &format!("{}-{}", seed, i));
		let text = format!("property {}\nseed {}\nindex {}\nfailure {}\ncase {}\n\
			dictionary {}\nchoices {}\n", id, seed, i, last.0.replace('\n', " "),
			last.1.replace('\n', " "), lits::to_line(), small.iter().map(|v| v.to_string())
			.collect::<Vec<_>>().join(","));
		let _ = std::fs::write(&path, text);
		println!("minimised: {}", cut(&last.0, 1500));
		println!("case: {}", cut(&last.1, 1500));
		println!("VIOLATION property={} replay={}", id, path.display());
		code = 1;
	}
	for e in st.errors.iter().take(5) {
		eprintln!("harness error: {}", cut(e, 400));
	}
	if code == 0 && !st.errors.is_empty() { code = 2; }
	let v = (code == 1) as u64;
	evidence(&root, p, tier, seed, &st, directed, v, start);
	println!("{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s", id,
		st.cases, st.evals + directed, st.nontriv.len(),
		start.elapsed().as_secs_f64());
	let _ = std::fs::remove_dir_all(&base);
	code
}

fn replay_path(root: &Path, id: &str, tag: &str) -> PathBuf {
	let d = root.join("replays");
	let _ = std::fs::create_dir_all(&d);
	d.join(format!("{}-{}.replay", id, tag))
}

fn merge(stats: &Mutex<Stats>, local: &mut Vec<(u64, Res)>) {
	let mut st = stats.lock().unwrap();
	for (i, r) in local.drain(..) {
		st.cases += 1;
		st.evals += r.evals.max(1) as u64;
		if r.nontrivial {
			if r.hashes.is_empty() { st.nontriv.insert(r.hash); }
			st.nontriv.extend(r.hashes.iter().copied());
			if i < 60 { st.samples.push((i, r.desc)); }
		}
		for l in r.labels { *st.labels.entry(l).or_insert(0) += 1; }
	}
}

fn evidence(root: &Path, p: &Prop, tier: &str, seed: u64, st: &Stats,
	directed: u64, violations: u64, start: Instant)
{
	let mut sm = st.samples.clone();
	sm.sort();
	let mut samples: Vec<String> = sm.iter().take(8)
		.map(|s| esc(&cut(&s.1, 600))).collect();
	if samples.is_empty() { samples.push(esc("none")); }
	let labels = st.labels.iter().map(|(k, v)| format!("{}: {}", esc(k), v))
		.collect::<Vec<_>>().join(", ");
	let text = format!("{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \
		\"level\": {},\n  \"coverage\": {{\n    \"evaluations\": {},\n    \
		\"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"cases\": {},\n    \
		\"directed_cases\": {},\n    \"labels\": {{{}}},\n    \"samples\": [\n      \
		{}\n    ]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \
		\"violations\": {}\n}}\n",
		esc(p.id), esc(tier), seed, esc(p.level), st.evals + directed,
		st.nontriv.len(), esc(&format!("distinct by content hash, and {}", p.rule)),
		st.cases, directed, labels, samples.join(",\n      "),
		esc("system libz, libzstd and libsqlite3 work as documented; the reference \
			codec and model in /verif/harness follow the mapblock format and \
			Manual.md"),
		start.elapsed().as_secs_f64(), violations);
	let d = root.join("evidence");
	let _ = std::fs::create_dir_all(&d);
	if let Err(e) = std::fs::write(d.join(format!("{}.json", p.id)), text) {
		eprintln!("harness: cannot write evidence: {}", e);
	}
}

fn replay(file: &str) -> i32 {
	let t = std::fs::read_to_string(file).expect("cannot read replay file");
	let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)
		.and_then(|l| l.strip_prefix(' ')).map(|s| s.to_string()));
	let id = get("property").expect("no property");
	let keep = std::env::var("VH_KEEP").ok().map(PathBuf::from);
	let base = keep.clone().unwrap_or_else(scratch);
	let c = ctx(base.join("replay"), false);
	let fail = if let Some(name) = get("directed") {
		let f = directed::cases(&id).into_iter().find(|d| d.0 == name)
			.expect("no such directed case").1;
		f(&c).err()
	} else {
		if let Some(d) = get("dictionary") { lits::from_line(&d); }
		let choices: Vec<u64> = get("choices").expect("no choices").split(',')
			.filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
		let ps = props();
		let p = ps.iter().find(|p| p.id == id).expect("unknown property");
		let mut s = Src::replay(choices);
		let r = run_case(p.f, &mut s, &c).expect("harness error");
		println!("case: {}", r.desc);
		r.fail
	};
	if keep.is_none() { let _ = std::fs::remove_dir_all(&base); }
	match fail {
		Some(e) => {
			println!("{}", e);
			println!("VIOLATION property={} replay={}", id, file);
			1
		},
		None => { println!("{}: holds", id); 0 }
	}
}

fn main() {
	world::start_watchdog();
	let a: Vec<String> = std::env::args().collect();
	let code = match a.get(1).map(|s| s.as_str()) {
		Some("check") => {
			let tier = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok())
				.unwrap_or("quick".into());
			let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok())
				.unwrap_or(1);
			check(&a[2], &tier, seed)
		},
		Some("replay") => replay(&a[2]),
		Some("lits") => {
			print!("{}", lits::base_text());
			0
		},
		Some("dict") => {
			let l = lits::get();
			println!("{:?}\n{:?}", l.new_nums, l.new_strs.iter()
				.map(|s| String::from_utf8_lossy(s)).collect::<Vec<_>>());
			0
		},
		Some("list") => {
			for p in props() { println!("{} {:?}", p.id, p.n); }
			0
		},
		_ => { eprintln!("usage: vh check ID [TIER] | replay FILE | list"); 2 }
	};
	std::process::exit(code);
}
