//! Containers whose tree is only partly in the store, or damaged (C23).
use bm::{Tree, WriteBackend};
use bm_le::Value;
use std::collections::BTreeMap;
use bmh::obj;
use bmh::seqs::*;
use bmh::tap::{res, Tap};
use bmh::util::*;
use bmh::values::*;

fn limit(j: &J) -> Option<u64> {
	j.a().get(0).map(|d| d.a().iter().rev().fold(0, |n, x| n * 4096 + x.i() as u64))
}

type Node = (Value, (Value, Value));

/// A store with these nodes, put there one by one or as a proof.
fn store<C: Cons<Value=Value>>(nodes: &[Node], proof: bool) -> Tap<C> {
	let mut db = Tap::<C>::new();
	if proof {
		db.db.populate(nodes.iter().cloned().collect());
	} else {
		for (k, v) in nodes { WriteBackend::insert(&mut db, k.clone(), v.clone()).unwrap(); }
	}
	db
}

/// The container itself, in a store of its own.
fn build<C: Cons<Value=Value>>(m: &dyn Maker<C>, es: &[Vec<u8>], max: Option<u64>) -> Result<(Tap<C>, Boxed<C>), E> {
	let mut db = Tap::<C>::new();
	let mut s = m.create(&mut db, 0, max)?;
	for e in es { s.push(&mut db, e)?; }
	Ok((db, s))
}

/// One operation: result and what it gives.
fn operate<C: Cons<Value=Value>>(s: &mut Boxed<C>, db: &mut Dyn<C>, op: &J) -> (String, String) {
	let i = if op.has("i") { op.get("i").i() as usize } else { 0 };
	let (r, out) = match op.get("op").s() {
		"push" => { let r = s.push(db, &unhex(op.get("v").s())); (res(&r), String::new()) },
		"set" => { let r = s.set(db, i, &unhex(op.get("v").s())); (res(&r), String::new()) },
		"get" => { let r = s.get(db, i); (res(&r), r.map(|v| hex(&v)).unwrap_or_default()) },
		"pop" => { let r = s.pop(db); (res(&r), r.map(|v| v.map(|v| hex(&v)).unwrap_or("none".into())).unwrap_or_default()) },
		o => panic!("operation {}", o),
	};
	(r, out)
}

fn replay<C: Cons<Value=Value>>(edges: &[J], fails: &mut Vec<String>) -> usize {
	let m = makers32::<C>();
	let mut runs = 0;
	for e in edges {
		begin(e);
		let kind = e.get("kind").s();
		let max = limit(e.get("ml"));
		let es: Vec<Vec<u8>> = e.get("es").a().iter().map(|x| unhex(x.s())).collect();
		let v = |x: &J| Value::of(&unhex(x.s()));
		let nodes: Vec<Node> = e.get("nodes").a().iter().map(|p| (v(&p.a()[0]), (v(&p.a()[1]), v(&p.a()[2])))).collect();
		let root = v(e.get("root"));
		let packed = kind.starts_with('p');
		let list = kind.ends_with("list");
		let whole = e.get("part").s() == "some";
		let n = e.get("n").i() as usize;
		let told = if whole { es.len() } else { n };
		let width = if packed { e.get("ew").i() as usize } else { 32 };
		for way in 0..m.named(kind).len() {
			let mk = &m.named(kind)[way];
			if mk.width() != width { continue }
			for own in &[true, false] {
				for proof in &[true, false] {
					runs += 1;
					let mut fail = |what: &str, got: J| fails.push(obj!{ "edge" => e.clone(), "way" => way, "own" => *own, "proof" => *proof, "what" => what, "got" => got }.dump());
					let r = guard(|| -> Result<(), E> {
						let mut db = store::<C>(&nodes, *proof);
						if *own { db.rootify(&root).map_err(bm::Error::Backend)?; }
						let opened = if list && e.get("how").s() == "meta" {
							let (_, s) = build::<C>(&**mk, &es, max)?;
							Ok(s.again(*own))
						} else {
							mk.open(*own, &mut db, root.clone(), told, max)
						};
						if res(&opened) != e.get("opens").s() { fail("opening", res(&opened).into()); return Ok(()) }
						let mut s = match opened { Ok(s) => s, Err(_) => return Ok(()) };
						if s.root() != root { fail("root when opened", s.root().hex().into()); }
						if s.len() != told { fail("length when opened", s.len().into()); }
						for h in e.get("hist").a() {
							let (r, out) = operate(&mut s, &mut db, h.get("e"));
							let got = obj!{ "e" => h.get("e").clone(), "res" => r, "out" => out, "root" => s.root().hex(), "n" => s.len() };
							if got != *h { fail("step", got); return Ok(()) }
						}
						let read = |s: &mut Boxed<C>, db: &mut Dyn<C>| J::A((0..n + 1).map(|i| {
							let (r, out) = operate(s, db, &obj!{ "op" => "get", "i" => i });
							obj!{ "res" => r, "out" => out }
						}).collect());
						let reads = read(&mut s, &mut db);
						if reads != *e.get("reads") { fail("reads", reads); return Ok(()) }
						// The last element goes if it can be read.
						let before = (s.root(), s.len());
						let (r, out) = operate(&mut s, &mut db, &obj!{ "op" => "pop" });
						if n == 0 {
							if (r.as_str(), out.as_str()) != ("ok", "none") { fail("pop of nothing", obj!{ "res" => r.clone(), "out" => out.clone() }); }
						} else {
							let last = &e.get("reads").a()[n - 1];
							let right = if r == "ok" { last.get("res").s() == "ok" && last.get("out").s() == out && s.len() == n - 1 }
								else { r == "corrupted" && (packed || last.get("res").s() == "corrupted") };
							if !right { fail("pop", obj!{ "res" => r.clone(), "out" => out }); }
						}
						if r != "ok" {
							if (s.root(), s.len()) != before { fail("handle after a failure", obj!{ "root" => s.root().hex(), "len" => s.len() }); }
							let reads = read(&mut s, &mut db);
							if reads != *e.get("reads") { fail("reads after a failure", reads); }
						}
						let r = s.drop(&mut db);
						if r.is_err() { fail("drop", res(&r).into()); }
						Ok(())
					});
					match r {
						Ok(Ok(())) => (),
						Ok(Err(x)) => fail("error", format!("{:?}", x).into()),
						Err(()) => fail("panic", J::N),
					}
				}
			}
		}
	}
	runs
}

/// The nodes of a tree.
fn reach(all: &BTreeMap<Value, (Value, Value)>, root: &Value, into: &mut BTreeMap<Value, (Value, Value)>) {
	if let Some(v) = all.get(root) {
		if into.insert(root.clone(), v.clone()).is_none() {
			reach(all, &v.0, into);
			reach(all, &v.1, into);
		}
	}
}

fn trace<C: Cons<Value=Value>>(rng: &mut Rng, steps: usize) {
	let m = makers32::<C>();
	event(&obj!{ "op" => "start", "mode" => C::MODE });
	let kind = *rng.pick(&["vec", "list", "pvec", "plist"]);
	let way = rng.below(m.named(kind).len());
	let mk = &m.named(kind)[way];
	let w = mk.width();
	let list = kind.ends_with("list");
	let ew = if kind.starts_with('p') { w } else { 0 };
	let max = match rng.below(4) {
		0 | 1 => None,
		2 => Some(rng.range(1, 40) as u64),
		_ => Some(*rng.pick(&[64u64, 100, 1 << 20, 1 << 40])),
	};
	let cap = std::cmp::min(max.unwrap_or(60), 60) as usize;
	let c = *rng.pick(&[3, 6, 17, 40]);
	let n = rng.below(std::cmp::min(cap, if w > 32 { c / 2 } else { c }) + 1);
	let elem = |rng: &mut Rng| -> Vec<u8> { (0..w).map(|_| 1 + rng.below(255) as u8).collect() };
	let mut es: Vec<Vec<u8>> = vec![];
	for _ in 0..n { let x = if !es.is_empty() && rng.chance(1, 4) { rng.pick(&es).clone() } else { elem(rng) }; es.push(x); }
	let how = if list && rng.chance(1, 2) { "root" } else { "meta" };
	let e = obj!{ "op" => "have", "kind" => kind, "ew" => ew, "ml" => opt_digits(max), "how" => how, "es" => J::A(es.iter().map(|x| J::S(hex(x))).collect()) };
	begin(&e);
	let made = guard(|| build::<C>(&**mk, &es, max));
	let (full, whole) = match made { Ok(Ok(x)) => x, _ => { event(&e.with("keys", J::A(vec![])).with("res", "failed".into()).with("root", "".into())); close_trace(); return } };
	let mut all = BTreeMap::new();
	for (k, (kids, _)) in full.db.as_ref().iter() { if let Some(v) = kids { all.insert(k.clone(), v.clone()); } }
	let mut tree = BTreeMap::new();
	reach(&all, &whole.root(), &mut tree);
	let mut nodes: Vec<Node> = tree.into_iter().collect();
	let gone = match rng.below(4) { 0 => 0, 1 => 1, 2 => 2, _ => rng.below(nodes.len() / 3 + 2) };
	for _ in 0..gone { if !nodes.is_empty() { let k = rng.below(nodes.len()); if nodes[k].0 != whole.root() || rng.chance(1, 4) { nodes.remove(k); } } }
	let own = rng.chance(1, 2);
	let proof = rng.chance(1, 2);
	let mut db = store::<C>(&nodes, proof);
	let e = e.with("keys", J::A(nodes.iter().map(|x| J::S(x.0.hex())).collect())).with("root", whole.root().hex().into()).with("own", own.into()).with("proof", proof.into());
	begin(&e);
	let opened = guard(|| {
		if own { db.rootify(&whole.root()).map_err(bm::Error::Backend)?; }
		if list && how == "meta" { Ok(whole.again(own)) } else { mk.open(own, &mut db, whole.root(), n, max) }
	});
	let mut s = match opened {
		Ok(r) => { event(&e.with("res", res(&r).into())); match r { Ok(s) => s, Err(_) => { close_trace(); return } } },
		Err(()) => { event(&e.with("res", "panic".into())); close_trace(); return },
	};
	let mut fresh = true;
	for _ in 0..steps {
		let n = s.len();
		let i = if n == 0 || rng.chance(1, 15) { n } else { rng.below(n) };
		let v: J = hex(&elem(rng)).into();
		let op = match rng.below(12) {
			0 => obj!{ "op" => "push", "v" => v },
			1 | 2 => {
				// Mostly where it can be read, for the write to be judged.
				let mut at = i;
				for _ in 0..8 { if guard(|| s.get(&mut db, at).is_ok()).unwrap_or(true) { break } at = if n == 0 { 0 } else { rng.below(n) }; }
				obj!{ "op" => "set", "i" => at, "v" => v }
			},
			3 | 4 => obj!{ "op" => "pop" },
			_ => obj!{ "op" => "get", "i" => i },
		};
		let op = op.with("fresh", fresh.into());
		fresh = fresh && op.get("op").s() == "get";
		begin(&op);
		match guard(|| operate(&mut s, &mut db, &op)) {
			Ok((r, out)) => event(&op.with("res", r.into()).with("out", out.into()).with("root", s.root().hex().into()).with("len", s.len().into())),
			Err(()) => { event(&op.with("res", "panic".into()).with("out", "".into()).with("root", "".into()).with("len", 0usize.into())); break },
		}
	}
	close_trace();
}

fn main() {
	let a = args();
	open_log(&a.out, 20);
	if a.what == "replay" {
		let text = std::fs::read_to_string(&a.input).unwrap();
		let (mut inh, mut uni) = (vec![], vec![]);
		for l in text.lines() {
			let j = J::parse(l);
			if j.get("mode").s() == "unit" { uni.push(j) } else { inh.push(j) }
		}
		let mut fails = Vec::new();
		let n = inh.len() + uni.len();
		let k = replay::<Inh<Value>>(&inh, &mut fails) + replay::<Uni<Value>>(&uni, &mut fails);
		std::fs::write(&a.out, fails.join("\n")).unwrap();
		println!("EDGES {} REPLAYED {} FAILED {}", n, k, fails.len());
		return
	}
	let mut rng = Rng::new(a.seed ^ 0x2323);
	for k in 0..if a.thorough { 3000 } else { 300 } {
		if k % 3 == 2 { trace::<Uni<Value>>(&mut rng, 25) } else { trace::<Inh<Value>>(&mut rng, 25) }
	}
	write_log();
}
