//! Choice source: every random decision of a generated case goes through this,
//! so that a case is a pure function of a sequence of integers. That sequence
//! is what is shrunk and what a replay file stores.

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
		r.next();
		r
	}
	#[inline]
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	#[inline]
	pub fn below(&mut self, n: u64) -> u64 {
		((self.next() as u128 * n as u128) >> 64) as u64
	}
	pub fn fill(&mut self, dst: &mut [u8]) {
		for c in dst.chunks_mut(8) {
			let v = self.next().to_le_bytes();
			let n = c.len();
			c.copy_from_slice(&v[..n]);
		}
	}
}

pub fn mix(a: u64, b: u64) -> u64 {
	let mut r = Rng(a.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ b);
	r.next();
	r.next()
}

enum Mode {
	Random(Rng),
	Replay(Vec<u64>),
}

pub struct Src {
	mode: Mode,
	pub log: Vec<u64>,
	/// (start, end) of structural units, for deletion during shrinking.
	pub spans: Vec<(usize, usize)>,
	/// Whether this case uses the dictionary.
	pub dict: bool,
	/// How often it does: 1 in this many places.
	pub rate: u64,
}

impl Src {
	pub fn random(seed: u64) -> Self {
		Src { mode: Mode::Random(Rng::new(seed)), log: vec![], spans: vec![], dict: false, rate: 3 }
	}
	pub fn replay(v: Vec<u64>) -> Self {
		Src { mode: Mode::Replay(v), log: vec![], spans: vec![], dict: false, rate: 3 }
	}

	/// A value in 0..n. 0 is the simplest.
	pub fn below(&mut self, n: u64) -> u64 {
		assert!(n > 0);
		let v = match &mut self.mode {
			Mode::Random(r) => r.below(n),
			Mode::Replay(v) => v.get(self.log.len()).copied().unwrap_or(0)
				.min(n - 1),
		};
		self.log.push(v);
		v
	}
	pub fn seed(&mut self) -> u64 {
		self.below(1 << 48)
	}
	pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
		lo + self.below((hi - lo + 1) as u64) as i64
	}
	pub fn usize_to(&mut self, hi: usize) -> usize {
		self.below(hi as u64 + 1) as usize
	}
	/// True with probability num/den; false is the simplest.
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		let v = self.below(den);
		v >= den - num
	}
	pub fn bool(&mut self) -> bool {
		self.chance(1, 2)
	}
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
		&xs[self.below(xs.len() as u64) as usize]
	}
	/// Index chosen with the given weights; index 0 is the simplest.
	pub fn weighted(&mut self, ws: &[u64]) -> usize {
		let total: u64 = ws.iter().sum();
		let mut v = self.below(total);
		for (i, &w) in ws.iter().enumerate() {
			if v < w {
				return i;
			}
			v -= w;
		}
		unreachable!()
	}
	/// Decide whether this case uses the dictionary (often if it has new words).
	pub fn set_dict(&mut self) {
		let l = crate::lits::get();
		let new = !l.new_nums.is_empty() || !l.new_strs.is_empty();
		self.dict = self.below(120) >= if new { 80 } else { 116 };
		if self.dict { self.rate = *self.pick(&[2, 4, 12]); }
	}
	/// Sometimes a number of the dictionary, or next to one, in lo..=hi.
	pub fn num(&mut self, lo: i64, hi: i64) -> Option<i64> {
		if !self.dict || !self.chance(1, self.rate) { return None; }
		let l = crate::lits::get();
		let fits = |v: &&i64| (**v + 1 >= lo && **v - 1 <= hi)
			|| (-**v + 1 >= lo && -**v - 1 <= hi)
			|| (lo < -31 && hi > 31 && **v * 16 <= hi && **v <= 1940);
		let new: Vec<i64> = l.new_nums.iter().filter(fits).copied().collect();
		let all: Vec<i64> = l.nums.iter().filter(fits).copied().collect();
		let pool = if !new.is_empty() && self.below(8) < 7 { new } else { all };
		if pool.is_empty() { return None; }
		let mut v = *self.pick(&pool);
		// Coordinates may be given in nodes or mapblocks.
		if lo < -31 && hi > 31 && self.chance(1, 4) { v = v * 16 + *self.pick(&[0, 15]); }
		v += *self.pick(&[0, 1, -1, 0]);
		if lo < 0 && self.bool() { v = -v; }
		if v >= lo && v <= hi { Some(v) } else { None }
	}
	pub fn len(&mut self, hi: usize) -> Option<usize> {
		self.num(0, hi as i64).map(|v| v as usize)
	}
	/// Sometimes a string of the dictionary.
	pub fn word(&mut self) -> Option<Vec<u8>> {
		if !self.dict || !self.chance(1, self.rate) { return None; }
		let l = crate::lits::get();
		let pool = if !l.new_strs.is_empty() && self.below(8) < 7 { &l.new_strs }
			else { &l.strs };
		if pool.is_empty() { return None; }
		Some(self.pick(pool).clone())
	}
	/// Sometimes a name of a node or item made from one.
	pub fn word_name(&mut self) -> Option<String> {
		let w = self.word()?;
		let ok: String = w.iter().map(|&c| c as char).filter(|c|
			c.is_ascii_alphanumeric() || *c == '_' || *c == ':').collect();
		let mut parts = ok.splitn(2, ':');
		let (a, b) = (parts.next().unwrap().to_ascii_lowercase(), parts.next()
			.map(|b| b.replace(':', "_")));
		Some(match b {
			Some(b) if !(a.is_empty() && b.is_empty()) => {
				let a = if a.is_empty() { "m" } else { &a };
				let more = *self.pick(&["", "", "x"]);
				format!("{}:{}{}", a, b, more)
			},
			_ => {
				let o = ok.replace(':', "_");
				match self.below(4) {
					0 => format!("m:{}", o),
					1 => format!("m:x{}", o),
					2 => format!("m:{}x", o),
					_ => if a.is_empty() { "m:m".into() } else { format!("{}:m", a) },
				}
			},
		})
	}
	pub fn span<T>(&mut self, f: impl FnOnce(&mut Src) -> T) -> T {
		let start = self.log.len();
		let res = f(self);
		self.spans.push((start, self.log.len()));
		res
	}
	/// A list of between `min` and `max` elements. Each element is a span that
	/// includes its continuation flag, so removing the span removes it.
	pub fn list<T>(&mut self, min: usize, max: usize, avg: usize,
		mut f: impl FnMut(&mut Src, usize) -> T) -> Vec<T>
	{
		let mut out = vec![];
		while out.len() < max {
			let start = self.log.len();
			if out.len() >= min {
				let extra = (avg.max(min) - min) as u64;
				if !self.chance(extra, extra + 1) {
					break;
				}
			}
			let i = out.len();
			out.push(f(self, i));
			self.spans.push((start, self.log.len()));
		}
		out
	}
}

/// Shrink a failing choice sequence. `fails` returns the consumed log and spans
/// if the candidate still fails.
pub fn shrink(
	log: Vec<u64>,
	spans: Vec<(usize, usize)>,
	max_runs: usize,
	max_time: std::time::Duration,
	mut fails: impl FnMut(Vec<u64>) -> Option<(Vec<u64>, Vec<(usize, usize)>)>
) -> Vec<u64> {
	let start = std::time::Instant::now();
	let mut best = log;
	let mut spans = spans;
	let mut runs = 0;
	let out_of_budget = |runs: &mut usize| {
		*runs += 1;
		*runs > max_runs || start.elapsed() > max_time
	};

	fn better(a: &[u64], b: &[u64]) -> bool {
		a.len() < b.len() || (a.len() == b.len() && a < b)
	}

	loop {
		let before = best.clone();

		// Delete spans, largest first.
		let mut order = spans.clone();
		order.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
		let mut i = 0;
		while i < order.len() {
			let (s, e) = order[i];
			i += 1;
			if e > best.len() || s >= e {
				continue;
			}
			let mut cand = best.clone();
			cand.drain(s..e);
			if out_of_budget(&mut runs) {
				return best;
			}
			if let Some((l, sp)) = fails(cand) {
				if better(&l, &best) {
					best = l;
					spans = sp;
					order = spans.clone();
					order.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
					i = 0;
				}
			}
		}

		// Zero chunks.
		let mut size = best.len().next_power_of_two().max(1);
		while size >= 1 {
			let mut pos = 0;
			while pos < best.len() {
				let end = (pos + size).min(best.len());
				if best[pos..end].iter().any(|&v| v != 0) {
					let mut cand = best.clone();
					cand[pos..end].fill(0);
					if out_of_budget(&mut runs) {
						return best;
					}
					if let Some((l, sp)) = fails(cand) {
						if better(&l, &best) {
							best = l;
							spans = sp;
						}
					}
				}
				pos += size;
			}
			size /= 2;
		}

		// Minimise single values.
		let mut pos = 0;
		while pos < best.len() {
			let mut lo = 0u64;
			while pos < best.len() && best[pos] > lo {
				let v = best[pos];
				let mid = lo + (v - lo) / 2;
				let mut cand = best.clone();
				cand[pos] = mid;
				if out_of_budget(&mut runs) {
					return best;
				}
				match fails(cand) {
					Some((l, sp)) if better(&l, &best) => {
						best = l;
						spans = sp;
					}
					_ => lo = mid + 1,
				}
			}
			pos += 1;
		}

		if best == before {
			return best;
		}
	}
}
