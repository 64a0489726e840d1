//! Values on the wire: bytes (SCALE) and JSON (C22).
use bm::CompactValue;
use bm_le::{Compact, MaxVec, Value};
use bmh::obj;
use bmh::util::*;
use parity_codec::{Decode, Encode};
use primitive_types::H256;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value as Doc;
use std::fmt::Debug;
use typenum::*;

/// A type as data: described, its values as JSON of the harness.
trait Wired: PartialEq + Clone + Debug + 'static {
	fn desc() -> J;
	fn to_j(&self) -> J;
	fn from_j(j: &J) -> Self;
}

macro_rules! uints {
	( $( $t:ty, $n:expr );* ) => { $(
		impl Wired for $t {
			fn desc() -> J { obj!{ "k" => "u", "n" => $n as usize } }
			fn to_j(&self) -> J { hex(&self.to_le_bytes()).into() }
			fn from_j(j: &J) -> Self {
				let mut b = [0; $n];
				b.copy_from_slice(&unhex(j.s()));
				<$t>::from_le_bytes(b)
			}
		}
	)* }
}
uints!(u8, 1; u16, 2; u32, 4; u64, 8);

/// A byte (bytes themselves have no SCALE encoding on their own).
#[derive(PartialEq, Clone, Debug, Serialize, serde::Deserialize)]
#[serde(transparent)]
struct Byte(u8);
impl Encode for Byte {
	fn encode_to<O: parity_codec::Output>(&self, dest: &mut O) { dest.push_byte(self.0) }
}
impl Decode for Byte {
	fn decode<I: parity_codec::Input>(input: &mut I) -> Option<Self> { input.read_byte().map(Byte) }
}
impl Wired for Byte {
	fn desc() -> J { u8::desc() }
	fn to_j(&self) -> J { self.0.to_j() }
	fn from_j(j: &J) -> Self { Byte(u8::from_j(j)) }
}

impl Wired for Value {
	fn desc() -> J { obj!{ "k" => "hash", "n" => 32usize } }
	fn to_j(&self) -> J { hex(self.as_ref()).into() }
	fn from_j(j: &J) -> Self { Value(H256::from_slice(&unhex(j.s()))) }
}
impl<A: Wired, B: Wired> Wired for (A, B) {
	fn desc() -> J { obj!{ "k" => "prod", "ts" => vec![A::desc(), B::desc()] } }
	fn to_j(&self) -> J { J::A(vec![self.0.to_j(), self.1.to_j()]) }
	fn from_j(j: &J) -> Self { (A::from_j(&j.a()[0]), B::from_j(&j.a()[1])) }
}
impl<T: Wired, N: Unsigned + PartialEq + Clone + Debug + 'static> Wired for MaxVec<T, N> {
	fn desc() -> J { obj!{ "k" => "list", "t" => T::desc(), "max" => opt_digits(Some(N::to_u64())) } }
	fn to_j(&self) -> J { J::A(self.0.iter().map(|t| t.to_j()).collect()) }
	fn from_j(j: &J) -> Self { j.a().iter().map(T::from_j).collect::<Vec<T>>().into() }
}
impl<T: Wired> Wired for CompactValue<T> {
	fn desc() -> J { obj!{ "k" => "cv", "t" => T::desc() } }
	fn to_j(&self) -> J {
		match self {
			CompactValue::Single(v) => J::A(vec![v.to_j()]),
			CompactValue::Combined(b) => J::A(vec![b.0.to_j(), b.1.to_j()]),
		}
	}
	fn from_j(j: &J) -> Self {
		match &j.a()[..] {
			[v] => CompactValue::Single(T::from_j(v)),
			[l, r] => CompactValue::Combined(Box::new((Self::from_j(l), Self::from_j(r)))),
			_ => unreachable!(),
		}
	}
}
impl<T: Wired> Wired for Compact<T> {
	fn desc() -> J { T::desc() }
	fn to_j(&self) -> J { self.0.to_j() }
	fn from_j(j: &J) -> Self { Compact(T::from_j(j)) }
}

/// JSON text as the specification writes documents.
fn jdoc(d: &Doc) -> J {
	let doc = |k: &str, v: J| obj!{ "k" => k, "v" => v };
	match d {
		Doc::Bool(b) => doc("bool", (*b).into()),
		Doc::Number(n) => match n.as_u64() {
			Some(n) => doc("num", hex(&n.to_le_bytes()).into()),
			None => doc("odd", n.to_string().into()),
		},
		Doc::Null => doc("odd", "null".into()),
		Doc::String(s) => doc("str", s.clone().into()),
		Doc::Array(a) => doc("arr", J::A(a.iter().map(jdoc).collect())),
		Doc::Object(m) => doc("obj", J::A(m.iter().map(|(k, v)| J::A(vec![k.clone().into(), jdoc(v)])).collect())),
	}
}

/// The text of a document.
fn text(d: &J) -> String {
	let v = d.get("v");
	match d.get("k").s() {
		"bool" => v.b().to_string(),
		"num" => {
			let mut b = [0; 8];
			b.copy_from_slice(&unhex(v.s()));
			u64::from_le_bytes(b).to_string()
		},
		"odd" => v.s().into(),
		"str" => v.dump(),
		"arr" => format!("[{}]", v.a().iter().map(text).collect::<Vec<_>>().join(",")),
		_ => format!("{{{}}}", v.a().iter().map(|p| format!("{}:{}", p.a()[0].dump(), text(&p.a()[1]))).collect::<Vec<_>>().join(",")),
	}
}

/// What the code does with a type's values.
struct Type {
	name: &'static str,
	desc: J,
	wired: bool,
	bytes: fn(&J) -> Vec<u8>,
	of_bytes: fn(&[u8]) -> J,
	again: fn(&[u8]) -> Option<(bool, usize)>,
	doc: fn(&J) -> J,
	of_doc: fn(&J) -> J,
}

fn list(x: Option<J>) -> J { J::A(x.into_iter().collect()) }

/// Whether what is read from the bytes is written as those it was read from,
/// and how many are left.
fn again<T: Encode + Decode>(b: &[u8]) -> Option<(bool, usize)> {
	let mut input = b;
	let x = T::decode(&mut input)?;
	Some((x.encode() == b[..b.len() - input.len()], input.len()))
}

fn put<T: Wired + Encode>(v: &J) -> Vec<u8> { T::from_j(v).encode() }
fn take<T: Wired + Decode>(b: &[u8]) -> J {
	let mut input = b;
	let x = T::decode(&mut input);
	let left = if x.is_some() { input.len() } else { 0 };
	obj!{ "out" => list(x.map(|x| x.to_j())), "left" => left }
}
/// The document, the same written in one go or through a tree of values.
fn write<T: Wired + Serialize>(v: &J) -> J {
	let t = T::from_j(v);
	let d = serde_json::to_value(&t).unwrap();
	let again: Doc = serde_json::from_str(&serde_json::to_string(&t).unwrap()).unwrap();
	if d == again { jdoc(&d) } else { "two documents".into() }
}
/// The same read from text, from text in pieces and from a document.
fn read<T: Wired + DeserializeOwned>(d: &J) -> J {
	let s = text(d);
	let a = serde_json::from_str::<T>(&s).ok();
	let b = serde_json::from_reader::<_, T>(s.as_bytes()).ok();
	if a != b { return "two values".into() }
	// A document keeps one entry of each name.
	if !s.contains("\"Single\"") || jdoc(&serde_json::from_str::<Doc>(&s).unwrap()) == *d {
		let c = serde_json::from_str::<Doc>(&s).ok().and_then(|d| serde_json::from_value::<T>(d).ok());
		if a != c { return "two values".into() }
	}
	obj!{ "out" => list(a.map(|x| x.to_j())) }
}

fn full<T: Wired + Encode + Decode + Serialize + DeserializeOwned>(name: &'static str) -> Type {
	Type { name, desc: T::desc(), wired: true, bytes: put::<T>, of_bytes: take::<T>, again: again::<T>, doc: write::<T>, of_doc: read::<T> }
}
fn json<T: Wired + Serialize + DeserializeOwned>(name: &'static str) -> Type {
	Type { name, desc: T::desc(), wired: false, bytes: |_| vec![], of_bytes: |_| J::N, again: |_| None, doc: write::<T>, of_doc: read::<T> }
}

type U1T = op!(U1 << U40);

fn types() -> Vec<Type> {
	macro_rules! all { ( $f:ident $( $t:ty ),* ) => { vec![ $( $f::<$t>(stringify!($t)) ),* ] } }
	let mut ts = all![full
		MaxVec<Byte, U0>, MaxVec<Byte, U2>, MaxVec<u16, U3>, MaxVec<u32, U1>, MaxVec<u64, U64>, MaxVec<Byte, U1T>, MaxVec<MaxVec<Byte, U2>, U3>,
		MaxVec<MaxVec<u16, U1>, U1T>, MaxVec<Value, U2>, (MaxVec<Byte, U1>, u16), MaxVec<(Byte, MaxVec<Byte, U2>), U2>,
		Value, CompactValue<Value>, CompactValue<u16>, MaxVec<CompactValue<u16>, U2>, CompactValue<MaxVec<Byte, U1>>];
	ts.extend(all![json MaxVec<u8, U2>, Compact<MaxVec<u16, U3>>, Compact<MaxVec<Value, U1>>, MaxVec<Compact<MaxVec<u8, U2>>, U2>]);
	ts
}

/// An event with what the code did.
fn judge(t: &Type, e: &J) -> J {
	guard(|| match e.get("op").s() {
		"out" => {
			let v = e.get("v");
			let r = e.clone().with("doc", (t.doc)(v)).with("wired", t.wired.into());
			if t.wired { r.with("bytes", hex(&(t.bytes)(v)).into()) } else { r }
		},
		"bytes" => {
			let x = (t.of_bytes)(&unhex(e.get("bytes").s()));
			e.clone().with("out", x.get("out").clone()).with("left", x.get("left").clone())
		},
		// Many values nested in each other: how many of those at the end are left.
		"deep" => {
			let (n, k, end) = (e.get("n").i() as usize, e.get("k").i() as usize, unhex(e.get("ends").s()));
			let mut b = vec![1; n];
			for _ in 0..k { b.extend_from_slice(&end); }
			let x = (t.again)(&b);
			e.clone().with("left", J::A(x.iter().map(|(used, left)| if *used { J::from(*left / end.len()) } else { "other bytes".into() }).collect()))
		},
		_ => match (t.of_doc)(e.get("doc")) {
			J::S(s) => e.clone().with("out", s.into()),
			x => e.clone().with("out", x.get("out").clone()),
		},
	}).map(|e| e.with("res", "ok".into())).unwrap_or_else(|()| e.clone().with("res", "panic".into()).with("out", "panic".into()))
}

fn replay(input: &str) -> (usize, Vec<String>) {
	let ts = types();
	let (mut n, mut fails) = (0, vec![]);
	for l in input.lines() {
		let e = J::parse(l);
		begin(&e);
		n += 1;
		let t = ts.iter().find(|t| t.name == e.get("ty").s()).unwrap();
		let g = judge(t, &e);
		let same = |k: &str| !e.has(k) || (g.has(k) && g.get(k) == e.get(k));
		if g.get("res").s() != "ok" || !["out", "left", "bytes", "doc"].iter().all(|k| same(k)) {
			fails.push(obj!{ "edge" => e, "got" => g }.dump());
		}
	}
	(n, fails)
}

// ------------------------------------------------------------------ random

fn value(rng: &mut Rng, t: &J, depth: usize) -> J {
	match t.get("k").s() {
		"u" | "hash" => {
			let n = t.get("n").i() as usize;
			match rng.below(4) {
				0 => hex(&vec![0; n]).into(),
				1 => hex(&vec![255; n]).into(),
				_ => hex(&rng.bytes(n)).into(),
			}
		},
		"prod" => J::A(t.get("ts").a().iter().map(|t| value(rng, t, depth)).collect()),
		"list" => {
			let max = t.get("max").a()[0].a().iter().rev().fold(0i64, |n, d| n.saturating_mul(4096).saturating_add(d.i()));
			let flat = t.get("t").get("k").s() == "u";
			let n = if max <= 64 && rng.chance(1, 2) { max as usize + rng.below(2) }
				else if max > 64 && flat && rng.chance(1, 6) { *rng.pick(&[63, 64, 65, 255, 256, 257, 1000]) }
				else { rng.below(5) };
			J::A((0..n).map(|_| value(rng, t.get("t"), depth)).collect())
		},
		_ => if depth == 0 || rng.chance(1, 3) { J::A(vec![value(rng, t.get("t"), 0)]) }
			else { J::A(vec![value(rng, t, depth - 1), value(rng, t, depth - 1)]) },
	}
}

fn damage(rng: &mut Rng, b: &mut Vec<u8>) {
	for _ in 0..rng.range(1, 3) {
		let at = if b.is_empty() { 0 } else if rng.chance(1, 3) { 0 } else { rng.below(b.len()) };
		// Small numbers: the claim of many elements is out of scope.
		let x = if rng.chance(1, 2) { (rng.below(70) * 4) as u8 } else { rng.below(6) as u8 };
		match rng.below(6) {
			0 if !b.is_empty() => b.truncate(at),
			1 if !b.is_empty() => { b.remove(at); },
			2 => b.insert(at, x),
			3 => b.push(x),
			4 if !b.is_empty() => b[at] = b[at].wrapping_add(4),
			_ if !b.is_empty() => b[at] = x,
			_ => {},
		}
	}
}

/// Lists which claim a million elements or more.
fn wild(b: &[u8]) -> bool {
	b.windows(5).any(|w| (w[0] % 4 == 2 && (w[3] != 0 || w[2] > 15)) || (w[0] == 3 && (w[4] != 0 || w[3] != 0)))
		|| (b.len() >= 4 && { let w = &b[b.len() - 4..]; w[0] % 4 == 2 && (w[3] != 0 || w[2] > 15) })
}

fn change(rng: &mut Rng, d: &J) -> J {
	let v = d.get("v");
	let doc = |k: &str, v: J| obj!{ "k" => k, "v" => v };
	let inner = |rng: &mut Rng| match d.get("k").s() {
		"arr" => {
			let mut a = v.a().clone();
			let i = if a.is_empty() { 0 } else { rng.below(a.len()) };
			match rng.below(4) {
				0 if !a.is_empty() => { a.remove(i); },
				1 if !a.is_empty() => { let x = a[i].clone(); a.insert(i, x) },
				_ if !a.is_empty() => a[i] = change(rng, &a[i].clone()),
				_ => a.push(doc("num", "0000000000000000".into())),
			}
			doc("arr", J::A(a))
		},
		"obj" => {
			let p = v.a()[0].a();
			let (mut k, mut x) = (p[0].clone(), p[1].clone());
			if rng.chance(1, 6) { k = (*rng.pick(&["Single", "Combined", "Other"])).into() } else { x = change(rng, &x) }
			doc("obj", J::A(vec![J::A(vec![k, x])]))
		},
		"str" => {
			let mut s = v.s().to_string();
			match rng.below(4) {
				0 => { s.pop(); },
				1 => s.push_str("00"),
				2 => { s = s.split_off(std::cmp::min(s.len(), 2)); },
				_ => { s.pop(); s.push(*rng.pick(&['a', 'z', '0'])); },
			}
			doc("str", s.into())
		},
		"num" => {
			let mut b = unhex(v.s());
			let i = rng.below(8);
			b[i] = b[i].wrapping_add(1 + rng.below(3) as u8);
			doc("num", hex(&b).into())
		},
		_ => doc("odd", "null".into()),
	};
	match rng.below(12) {
		0 => doc("odd", (*rng.pick(&["null", "-1", "1.5", "-0.5"])).into()),
		1 => doc("num", hex(&(rng.next() >> (8 * rng.below(8))).to_le_bytes()).into()),
		2 => doc("arr", J::A(vec![d.clone()])),
		_ => inner(rng),
	}
}

fn trace(rng: &mut Rng, ts: &[Type], steps: usize) {
	event(&obj!{ "op" => "start" });
	for _ in 0..steps {
		let t = rng.pick(ts);
		let say = |e: J| {
			let e = e.with("t", t.desc.clone()).with("ty", t.name.into());
			begin(&e);
			event(&judge(t, &e));
		};
		let depth = rng.below(7);
		let v = value(rng, &t.desc, depth);
		say(obj!{ "op" => "out", "v" => v.clone() });
		if t.wired {
			if let Ok(b) = guard(|| (t.bytes)(&v)) {
				if !wild(&b) { say(obj!{ "op" => "bytes", "bytes" => hex(&b) }) }
				for _ in 0..2 {
					let mut b = b.clone();
					damage(rng, &mut b);
					if !wild(&b) { say(obj!{ "op" => "bytes", "bytes" => hex(&b) }) }
				}
			}
		}
		if let Ok(d) = guard(|| (t.doc)(&v)) {
			if d.has("k") {
				say(obj!{ "op" => "json", "doc" => d.clone() });
				let mut x = d;
				for _ in 0..2 {
					x = change(rng, &x);
					say(obj!{ "op" => "json", "doc" => x.clone() });
				}
			}
		}
	}
	close_trace();
}

fn main() {
	let a = args();
	match a.what.as_str() {
		"types" => {
			let lines: Vec<String> = types().iter().map(|t| obj!{ "name" => t.name, "t" => t.desc.clone(), "wired" => t.wired }.dump()).collect();
			std::fs::write(&a.out, lines.join("\n") + "\n").unwrap();
		},
		"replay" => {
			open_log(&a.out, 60);
			let (n, fails) = replay(&std::fs::read_to_string(&a.input).unwrap());
			std::fs::write(&a.out, fails.join("\n") + "\n").unwrap();
			println!("EDGES {} REPLAYED {} FAILED {}", n, n, fails.len());
		},
		_ => {
			open_log(&a.out, 60);
			let mut rng = Rng::new(a.seed);
			let ts = types();
			for _ in 0..if a.thorough { 400 } else { 40 } { trace(&mut rng, &ts, 25) }
			write_log();
		},
	}
}
