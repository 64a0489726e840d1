//! Randomness, hexadecimal strings, JSON and trace files.
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

/// splitmix64.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut r = Rng(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def1);
		r.next();
		r
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
		z ^ (z >> 31)
	}
	/// Uniform in 0..n.
	pub fn below(&mut self, n: usize) -> usize {
		(self.next() % (n as u64)) as usize
	}
	pub fn range(&mut self, a: usize, b: usize) -> usize {
		a + self.below(b - a + 1)
	}
	pub fn chance(&mut self, num: usize, den: usize) -> bool {
		self.below(den) < num
	}
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
		&xs[self.below(xs.len())]
	}
	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		(0..n).map(|_| self.next() as u8).collect()
	}
}

pub fn hex(b: &[u8]) -> String {
	let mut s = String::with_capacity(b.len() * 2);
	for x in b {
		write!(s, "{:02x}", x).unwrap();
	}
	s
}

pub fn unhex(s: &str) -> Vec<u8> {
	(0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// JSON value (integers only).
#[derive(Clone, Debug, PartialEq)]
pub enum J {
	N,
	B(bool),
	I(i64),
	S(String),
	A(Vec<J>),
	O(BTreeMap<String, J>),
}

impl J {
	pub fn s(&self) -> &str {
		match self { J::S(s) => s, o => panic!("not a string: {:?}", o) }
	}
	pub fn i(&self) -> i64 {
		match self { J::I(i) => *i, o => panic!("not an integer: {:?}", o) }
	}
	pub fn b(&self) -> bool {
		match self { J::B(b) => *b, o => panic!("not a boolean: {:?}", o) }
	}
	pub fn a(&self) -> &Vec<J> {
		match self { J::A(a) => a, o => panic!("not an array: {:?}", o) }
	}
	pub fn o(&self) -> &BTreeMap<String, J> {
		match self { J::O(a) => a, o => panic!("not an object: {:?}", o) }
	}
	pub fn get(&self, k: &str) -> &J {
		match self {
			J::O(m) => m.get(k).unwrap_or_else(|| panic!("no field {} in {:?}", k, self)),
			o => panic!("not an object: {:?}", o),
		}
	}
	pub fn has(&self, k: &str) -> bool {
		match self { J::O(m) => m.contains_key(k), _ => false }
	}
	pub fn with(mut self, k: &str, v: J) -> J {
		if let J::O(ref mut m) = self {
			m.insert(k.into(), v);
		}
		self
	}
	pub fn dump(&self) -> String {
		let mut s = String::new();
		self.put(&mut s);
		s
	}
	fn put(&self, s: &mut String) {
		match self {
			J::N => s.push_str("null"),
			J::B(b) => { write!(s, "{}", b).unwrap(); },
			J::I(i) => { write!(s, "{}", i).unwrap(); },
			J::S(x) => {
				s.push('"');
				for c in x.chars() {
					match c {
						'"' => s.push_str("\\\""),
						'\\' => s.push_str("\\\\"),
						c if (c as u32) < 32 => s.push(' '),
						c => s.push(c),
					}
				}
				s.push('"');
			},
			J::A(a) => {
				s.push('[');
				for (i, x) in a.iter().enumerate() {
					if i > 0 { s.push(','); }
					x.put(s);
				}
				s.push(']');
			},
			J::O(m) => {
				s.push('{');
				for (i, (k, x)) in m.iter().enumerate() {
					if i > 0 { s.push(','); }
					J::S(k.clone()).put(s);
					s.push(':');
					x.put(s);
				}
				s.push('}');
			},
		}
	}
	pub fn parse(t: &str) -> J {
		let b = t.as_bytes();
		let mut p = 0;
		let j = parse(b, &mut p);
		skip(b, &mut p);
		assert!(p == b.len(), "trailing JSON at {} of {}", p, t);
		j
	}
}

fn skip(b: &[u8], p: &mut usize) {
	while *p < b.len() && (b[*p] as char).is_whitespace() { *p += 1; }
}

fn parse(b: &[u8], p: &mut usize) -> J {
	skip(b, p);
	match b[*p] {
		b'{' => {
			*p += 1;
			let mut m = BTreeMap::new();
			loop {
				skip(b, p);
				if b[*p] == b'}' { *p += 1; return J::O(m) }
				if b[*p] == b',' { *p += 1; continue }
				let k = match parse(b, p) { J::S(s) => s, _ => panic!("bad key") };
				skip(b, p);
				assert!(b[*p] == b':');
				*p += 1;
				let v = parse(b, p);
				m.insert(k, v);
			}
		},
		b'[' => {
			*p += 1;
			let mut a = Vec::new();
			loop {
				skip(b, p);
				if b[*p] == b']' { *p += 1; return J::A(a) }
				if b[*p] == b',' { *p += 1; continue }
				a.push(parse(b, p));
			}
		},
		b'"' => {
			*p += 1;
			let mut s = Vec::new();
			while b[*p] != b'"' {
				if b[*p] == b'\\' {
					*p += 1;
				}
				s.push(b[*p]);
				*p += 1;
			}
			*p += 1;
			J::S(String::from_utf8(s).unwrap())
		},
		b't' => { *p += 4; J::B(true) },
		b'f' => { *p += 5; J::B(false) },
		b'n' => { *p += 4; J::N },
		_ => {
			let q = *p;
			while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) { *p += 1; }
			J::I(std::str::from_utf8(&b[q..*p]).unwrap().parse().unwrap())
		},
	}
}

impl From<&str> for J { fn from(s: &str) -> J { J::S(s.into()) } }
impl From<String> for J { fn from(s: String) -> J { J::S(s) } }
impl From<bool> for J { fn from(s: bool) -> J { J::B(s) } }
impl From<i64> for J { fn from(s: i64) -> J { J::I(s) } }
impl From<usize> for J {
	/// Numbers TLC cannot hold are cut to its largest integer.
	fn from(s: usize) -> J { J::I(std::cmp::min(s, 2147483647) as i64) }
}
impl From<Vec<J>> for J { fn from(s: Vec<J>) -> J { J::A(s) } }
impl From<&[u8]> for J { fn from(s: &[u8]) -> J { J::S(hex(s)) } }

#[macro_export]
macro_rules! obj {
	( $( $k:expr => $v:expr ),* $(,)? ) => {{
		#[allow(unused_mut)]
		let mut m = std::collections::BTreeMap::new();
		$( m.insert(String::from($k), $crate::util::J::from($v)); )*
		$crate::util::J::O(m)
	}}
}

/// Big number as little-endian digits in base 4096.
pub fn digits(mut n: u64) -> J {
	let mut a = Vec::new();
	while n > 0 {
		a.push(J::I((n & 4095) as i64));
		n >>= 12;
	}
	J::A(a)
}

/// An optional big number: [] or [digits].
pub fn opt_digits(n: Option<u64>) -> J {
	J::A(n.map(digits).into_iter().collect())
}

struct Log {
	path: String,
	lines: Vec<String>,
	current: Vec<String>,
	begun: String,
	file: Option<std::fs::File>,
}

static LOG: Mutex<Option<Log>> = Mutex::new(None);
static TICK: AtomicU64 = AtomicU64::new(0);

/// Open the trace file; a watchdog ends the program when one operation
/// takes longer than `secs`.
pub fn open_log(path: &str, secs: u64) {
	*LOG.lock().unwrap() = Some(Log {
		path: path.into(), lines: Vec::new(), current: Vec::new(), begun: "{}".into(),
		file: std::env::var("BMH_BEGUN").ok().map(|p| std::fs::File::create(p).unwrap()),
	});
	std::panic::set_hook(Box::new(|i| {
		if std::env::var("BMH_PANICS").is_ok() || !GUARDED.with(|g| g.get()) {
			eprintln!("{}", i);
		}
	}));
	std::thread::spawn(move || {
		let mut last = (TICK.load(Ordering::SeqCst), std::time::Instant::now());
		loop {
			std::thread::sleep(std::time::Duration::from_millis(200));
			let now = TICK.load(Ordering::SeqCst);
			if now != last.0 {
				last = (now, std::time::Instant::now());
			} else if last.1.elapsed().as_secs() >= secs {
				{
					let mut g = LOG.lock().unwrap();
					let log = g.as_mut().unwrap();
					let begun = J::parse(&log.begun).with("res", "hang".into());
					log.current.push(begun.dump());
				}
				close_trace();
				write_log();
				println!("HANG");
				std::process::exit(0);
			}
		}
	});
}

/// Announce an operation: what is logged when it hangs or aborts.
pub fn begin(ev: &J) {
	TICK.fetch_add(1, Ordering::SeqCst);
	let mut g = LOG.lock().unwrap();
	if let Some(log) = g.as_mut() {
		log.begun = ev.dump();
		if let Some(f) = &log.file {
			use std::os::unix::fs::FileExt;
			f.write_all_at((log.begun.clone() + "\n").as_bytes(), 0).unwrap();
		}
	}
}

pub fn event(ev: &J) {
	TICK.fetch_add(1, Ordering::SeqCst);
	let mut g = LOG.lock().unwrap();
	if let Some(log) = g.as_mut() {
		log.current.push(ev.dump());
	}
}

/// End the current trace (one line of the file).
pub fn close_trace() {
	let mut g = LOG.lock().unwrap();
	if let Some(log) = g.as_mut() {
		if !log.current.is_empty() {
			let line = format!("[{}]", log.current.join(","));
			log.current.clear();
			log.lines.push(line);
		}
	}
}

pub fn write_log() {
	let g = LOG.lock().unwrap();
	if let Some(log) = g.as_ref() {
		let mut f = std::fs::File::create(&log.path).unwrap();
		for l in &log.lines {
			writeln!(f, "{}", l).unwrap();
		}
	}
}

thread_local!(static GUARDED: std::cell::Cell<bool> = std::cell::Cell::new(false));

/// Run code under test; a panic is a result like any other.
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, ()> {
	let outer = GUARDED.with(|g| g.replace(true));
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ());
	GUARDED.with(|g| g.set(outer));
	r
}

pub struct Args {
	pub seed: u64,
	pub thorough: bool,
	pub out: String,
	pub what: String,
	pub input: String,
}

/// `bin WHAT OUT SEED TIER [INPUT]`
pub fn args() -> Args {
	let a: Vec<String> = std::env::args().collect();
	Args {
		what: a[1].clone(),
		out: a[2].clone(),
		seed: a[3].parse().unwrap(),
		thorough: a[4] == "thorough",
		input: a.get(5).cloned().unwrap_or_default(),
	}
}
