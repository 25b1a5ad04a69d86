//! A dictionary for the generators, as fuzzers have them: the numbers and
//! strings that occur in MapEditr's sources, those above all that its reviewed
//! state (`base_lits.txt`) does not have. A condition on some odd size, count,
//! coordinate or name can hardly be met by chance otherwise. The dictionary
//! only decides what is tried, never what is right.

use std::collections::BTreeMap;
use std::path::Path;
use std::sync::RwLock;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Lits {
	pub nums: Vec<i64>,
	pub strs: Vec<Vec<u8>>,
	pub new_nums: Vec<i64>,
	pub new_strs: Vec<Vec<u8>>,
}

static LITS: RwLock<Option<&'static Lits>> = RwLock::new(None);

pub fn get() -> &'static Lits {
	if let Some(l) = *LITS.read().unwrap() { return l; }
	set(load())
}

pub fn set(l: Lits) -> &'static Lits {
	let l: &'static Lits = Box::leak(Box::new(l));
	*LITS.write().unwrap() = Some(l);
	l
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Tok { Num(i64), Str(Vec<u8>), Op(char) }

fn ident(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' }

fn number(t: &[u8]) -> Option<i64> {
	let s: String = t.iter().filter(|&&c| c != b'_').map(|&c| c as char).collect();
	let (radix, body) = match s.get(..2) {
		Some("0x") => (16, &s[2..]),
		Some("0b") => (2, &s[2..]),
		Some("0o") => (8, &s[2..]),
		_ => (10, &s[..]),
	};
	// A suffix, such as in 5u8
	let n = body.char_indices().find(|(_, c)| !c.is_digit(radix))
		.map_or(body.len(), |x| x.0);
	if n < body.len() && !matches!(&body[n..n + 1], "u" | "i") { return None; }
	i64::from_str_radix(&body[..n], radix).ok()
}

/// Skips what is not of interest; needs no more than well-formed source.
fn scan(src: &[u8]) -> Vec<Tok> {
	let mut out = vec![];
	let mut i = 0;
	let at = |i: usize| src.get(i).copied().unwrap_or(0);
	while i < src.len() {
		let c = src[i];
		if c == b'/' && at(i + 1) == b'/' {
			while i < src.len() && src[i] != b'\n' { i += 1; }
		} else if c == b'/' && at(i + 1) == b'*' {
			i += 2;
			while i < src.len() && !(src[i] == b'*' && at(i + 1) == b'/') { i += 1; }
			i += 2;
		} else if c == b'"' {
			i += 1;
			let mut v = vec![];
			while i < src.len() && src[i] != b'"' {
				if src[i] == b'\\' {
					i = escape(src, i + 1, &mut v);
				} else {
					v.push(src[i]);
					i += 1;
				}
			}
			i += 1;
			out.push(Tok::Str(v));
		} else if c == b'r' && (at(i + 1) == b'"' || (at(i + 1) == b'#'
			&& (at(i + 2) == b'"' || at(i + 2) == b'#')))
		{
			let mut n = 0;
			i += 1;
			while at(i) == b'#' { n += 1; i += 1; }
			i += 1;
			let start = i;
			while i < src.len() && !(src[i] == b'"'
				&& (1..=n).all(|k| at(i + k) == b'#')) { i += 1; }
			out.push(Tok::Str(src[start..i.min(src.len())].to_vec()));
			i += 1 + n;
		} else if c == b'\'' {
			if at(i + 1) == b'\\' {
				let mut v = vec![];
				i = escape(src, i + 2, &mut v);
				out.push(Tok::Str(v));
				i += 1;
			} else {
				// A character, or a lifetime
				let e = (i + 2..(i + 6).min(src.len())).find(|&e| src[e] == b'\'');
				match e {
					Some(e) if e == i + 2 || src[i + 1] >= 128 => {
						out.push(Tok::Str(src[i + 1..e].to_vec()));
						i = e + 1;
					},
					_ => i += 1,
				}
			}
		} else if c.is_ascii_digit() {
			let start = i;
			while i < src.len() && ident(src[i]) { i += 1; }
			if at(i) == b'.' && at(i + 1).is_ascii_digit() {
				i += 1;
				while i < src.len() && ident(src[i]) { i += 1; }
			} else if let Some(n) = number(&src[start..i]) {
				out.push(Tok::Num(n));
			}
		} else if ident(c) {
			while i < src.len() && ident(src[i]) {
				i += 1;
			}
			// b"..." and b'...' go on with the quote.
			out.push(Tok::Op('a'));
		} else {
			if !c.is_ascii_whitespace() {
				out.push(Tok::Op(c as char));
			}
			i += 1;
		}
	}
	out
}

fn escape(src: &[u8], mut i: usize, v: &mut Vec<u8>) -> usize {
	let c = src.get(i).copied().unwrap_or(b'0');
	i += 1;
	match c {
		b'n' => v.push(b'\n'),
		b't' => v.push(b'\t'),
		b'r' => v.push(b'\r'),
		b'0' => v.push(0),
		b'x' => {
			let h = src.get(i..i + 2).and_then(|h| std::str::from_utf8(h).ok())
				.and_then(|h| u8::from_str_radix(h, 16).ok());
			v.push(h.unwrap_or(0));
			i += 2;
		},
		b'u' => {
			let e = src[i..].iter().position(|&c| c == b'}').map_or(i, |e| i + e);
			let h = src.get(i + 1..e).and_then(|h| std::str::from_utf8(h).ok())
				.and_then(|h| u32::from_str_radix(h, 16).ok())
				.and_then(char::from_u32).unwrap_or('?');
			v.extend(h.to_string().as_bytes());
			i = e + 1;
		},
		b'\n' => while src.get(i).map_or(false, |c| c.is_ascii_whitespace()) {
			i += 1;
		},
		c => v.push(c),
	}
	i
}

/// Literals and simple expressions of them, with how often they occur.
fn literals(src: &[u8]) -> BTreeMap<Tok, usize> {
	let t = scan(src);
	let mut m = BTreeMap::new();
	let mut add = |t: Tok| *m.entry(t).or_insert(0) += 1;
	for (i, x) in t.iter().enumerate() {
		match x {
			Tok::Op(_) => (),
			x => add(x.clone()),
		}
		if let Tok::Str(v) = x {
			let n = std::str::from_utf8(v).ok().and_then(|t| t.trim().parse().ok());
			if let Some(n) = n { add(Tok::Num(n)); }
		}
		if let Tok::Num(a) = x {
			let r = match t.get(i + 1..) {
				Some([Tok::Op('*'), Tok::Num(b), ..]) => a.checked_mul(*b),
				Some([Tok::Op('+'), Tok::Num(b), ..]) => a.checked_add(*b),
				Some([Tok::Op('-'), Tok::Num(b), ..]) => a.checked_sub(*b),
				Some([Tok::Op('<'), Tok::Op('<'), Tok::Num(b), ..]) if *b < 48 =>
					a.checked_shl(*b as u32),
				_ => None,
			};
			if let Some(r) = r { add(Tok::Num(r)); }
		}
	}
	m
}

fn sources(d: &Path, out: &mut Vec<u8>) {
	let mut v: Vec<_> = std::fs::read_dir(d).map(|r| r.flatten()
		.map(|e| e.path()).collect()).unwrap_or_default();
	v.sort();
	for p in v {
		if p.is_dir() {
			sources(&p, out);
		} else if p.extension().map_or(false, |e| e == "rs") {
			let mut s = std::fs::read(&p).unwrap_or_default();
			let pat: &[u8] = b"#[cfg(test)]\nmod ";
			if let Some(i) = s.windows(pat.len()).position(|w| w == pat) {
				s.truncate(i);
			}
			out.extend(s);
			out.push(b'\n');
		}
	}
}

fn current() -> BTreeMap<Tok, usize> {
	let repo = std::env::var("VH_REPO").unwrap_or("/repo".into());
	let mut text = vec![];
	sources(&Path::new(&repo).join("src"), &mut text);
	literals(&text)
}

fn hex(b: &[u8]) -> String {
	b.iter().map(|c| format!("{:02x}", c)).collect()
}

fn unhex(s: &str) -> Vec<u8> {
	(0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok())
		.collect()
}

/// The text of `base_lits.txt`.
pub fn base_text() -> String {
	current().iter().map(|(t, n)| match t {
		Tok::Num(v) => format!("n {} {}\n", n, v),
		Tok::Str(v) => format!("s {} {}\n", n, hex(v)),
		Tok::Op(_) => String::new(),
	}).collect()
}

fn load() -> Lits {
	let mut base: BTreeMap<Tok, usize> = BTreeMap::new();
	for l in include_str!("base_lits.txt").lines() {
		let f: Vec<&str> = l.split(' ').collect();
		if f.len() < 3 { continue; }
		let t = if f[0] == "n" { Tok::Num(f[2].parse().unwrap()) }
			else { Tok::Str(unhex(f[2])) };
		base.insert(t, f[1].parse().unwrap());
	}
	let mut l = Lits::default();
	for (t, n) in current() {
		let new = n > base.get(&t).copied().unwrap_or(0);
		match t {
			Tok::Num(v) => if v > 3 {
				l.nums.push(v);
				if new { l.new_nums.push(v); }
			},
			Tok::Str(v) => if !v.is_empty() && v.len() <= 64 && !v.contains(&b'{') {
				l.strs.push(v.clone());
				if new { l.new_strs.push(v); }
			},
			Tok::Op(_) => (),
		}
	}
	l
}

/// For the replay file, which must not depend on the sources.
pub fn to_line() -> String {
	let l = get();
	let n = |v: &[i64]| v.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",");
	let s = |v: &[Vec<u8>]| v.iter().map(|v| hex(v)).collect::<Vec<_>>().join(",");
	format!("{};{};{};{}", n(&l.nums), s(&l.strs), n(&l.new_nums), s(&l.new_strs))
}

pub fn from_line(t: &str) {
	let f: Vec<&str> = t.split(';').collect();
	if f.len() < 4 { return; }
	let n = |t: &str| t.split(',').filter_map(|v| v.parse().ok()).collect();
	let s = |t: &str| t.split(',').filter(|v| !v.is_empty()).map(unhex).collect();
	set(Lits { nums: n(f[0]), strs: s(f[1]), new_nums: n(f[2]), new_strs: s(f[3]) });
}
